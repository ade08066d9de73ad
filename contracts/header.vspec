# Contracts of pkg/po: headers (C13).

func po.Header.Load(h, key) -> (r)
  ensures r == h_load(h.Fields, key)

func po.Header.Set(h, key, value)
  ensures h_out == (Header { Fields: h_set(h.Fields, key, value), ..h })

func po.Header.sSet(h, key, value)
  ensures h_out == (Header { Fields: h_sset(h.Fields, key, value), ..h })

func po.Header.Register(h, key, d)
  ensures h_find(h.Fields, key) >= 0 ==> h_out == h
  ensures h_find(h.Fields, key) < 0 ==> h_out.Template == h.Template && h_out.Fields.len() == h.Fields.len() + 1 && h_out.Fields.drop_last() == h.Fields && h_out.Fields.last().Key == key
  local values: []any
  exit if h_find(old_h.Fields, key) < 0 { assert(h.Fields.drop_last() =~= old_h.Fields); }
  loop 1
  invariant values.len() == d.len()

func po.Header.ToEntry(h) -> (r)
  ensures r.Str == header_text(h.Fields)
  ensures r.ID.len() == 0 && r.Context.len() == 0 && r.Plural.len() == 0 && r.Plurals.len() == 0 && !r.Obsolete
  ensures fuzzy(r) == h.Template
  ensures r == header_entry(h.Template, h.Fields)
  local b: strings.Builder
  exit assert(h.Fields.take(h.Fields.len() as int) =~= h.Fields); lemma_is_fuzzy(r); lemma_is_fuzzy(Entry { Flags: Seq::empty(), ..r }); lemma_push_contains(Seq::<Seq<u8>>::empty(), fuzzy_flag());
  loop 1
  invariant b == header_text(h.Fields.take(IDX))
  begin assert(h.Fields.take(IDX).drop_last() =~= h.Fields.take(IDX - 1)); assert(h.Fields.take(IDX).last() == h.Fields[IDX - 1]);
  end assert(b =~= header_text(h.Fields.take(IDX)));

func po.EntryToHeader(entry) -> (r)
  rlimit 30
  spinoff
  ensures r.Template == fuzzy(entry)
  ensures r.Fields == header_fields(split_byte(entry.Str, 10))
  local h: github.com/Tom5521/gotext-tools/v2/pkg/po.Header
  local lines: []string
  entry lemma_is_fuzzy(entry);
  exit assert(lines.take(lines.len() as int) =~= lines);
  loop 1
  invariant h.Template == fuzzy(entry) && h.Fields == header_fields(lines.take(IDX))
  begin assert(lines.take(IDX).drop_last() =~= lines.take(IDX - 1)); assert(lines.take(IDX).last() == lines[IDX - 1]); lemma_cut_colon(lines[IDX - 1]);

func po.Entries.HasHeader(e) -> (r)
  ensures r == (header_pos(e.d) >= 0)

func po.Entries.HeaderFromIndex(e, i) -> (r)
  requires 0 <= i < e.d.len()
  ensures r.Template == fuzzy(e.d[i as int])
  ensures r.Fields == header_fields(split_byte(e.d[i as int].Str, 10))

func po.Entries.Header(e) -> (r)
  ensures header_pos(e.d) < 0 ==> !r.Template && r.Fields.len() == 0
  ensures header_pos(e.d) >= 0 ==> r.Template == fuzzy(e.d[header_pos(e.d)]) && r.Fields == header_fields(split_byte(e.d[header_pos(e.d)].Str, 10))

func po.HeaderConfig.ToHeader(cfg) -> (h)
  ensures h.Template == cfg.Template
  ensures h.Fields == cfg_fields(cfg)
  exit assert(cfg.ExtraFields.take(cfg.ExtraFields.len() as int) =~= cfg.ExtraFields);
  loop 1
  pre assert(cfg.ExtraFields.take(0) =~= Seq::empty());
  invariant h.Template == cfg.Template && h.Fields == sset_all(cfg_named(cfg), cfg.ExtraFields.take(IDX))
  begin let x = cfg.ExtraFields; assert(x.take(IDX).drop_last() =~= x.take(IDX - 1)); assert(x.take(IDX).last() == x[IDX - 1]);

func po.Header.ToConfig(h) -> (r)
  ensures r.Template == h.Template
  ensures r.ProjectIDVersion == h_load(h.Fields, b"Project-Id-Version")
  ensures r.ReportMsgidBugsTo == h_load(h.Fields, b"Report-Msgid-Bugs-To")
  ensures r.POTCreationDate == h_load(h.Fields, b"POT-Creation-Date")
  ensures r.PORevisionDate == h_load(h.Fields, b"PO-Revision-Date")
  ensures r.LastTranslator == h_load(h.Fields, b"Last-Translator")
  ensures r.LanguageTeam == h_load(h.Fields, b"Language-Team")
  ensures r.Language == h_load(h.Fields, b"Language")
  ensures r.XGenerator == h_load(h.Fields, b"X-Generator")
  ensures r.MimeVersion == (if h_load(h.Fields, b"MIME-Version").len() == 0 { b"1.0" } else { h_load(h.Fields, b"MIME-Version") })
  ensures r.ExtraFields == unknown_fields(h.Fields)
  local extraFields: []github.com/Tom5521/gotext-tools/v2/pkg/po.HeaderField
  exit assert(h.Fields.take(h.Fields.len() as int) =~= h.Fields);
  loop 1
  pre assert(h.Fields.take(0) =~= Seq::empty());
  invariant extraFields == unknown_fields(h.Fields.take(IDX))
  begin let x = h.Fields; assert(x.take(IDX).drop_last() =~= x.take(IDX - 1)); assert(x.take(IDX).last() == x[IDX - 1]);

func po.parseAdvHeaderField(header) -> (r)

func po.Header.Nplurals(h) -> (r)

func po.HeaderWithConfig(v) -> (r)
  ensures forall|x: HeaderConfig| #[trigger] r(x) == v

func po.HeaderWithTemplate(v) -> (r)
  ensures forall|x: HeaderConfig| #[trigger] r(x) == HeaderConfig { Template: v, ..x }

func po.HeaderWithPlural(v) -> (r)
  ensures forall|x: HeaderConfig| #[trigger] r(x) == HeaderConfig { Plural: v, ..x }

func po.HeaderWithPOTCreationDate(v) -> (r)
  ensures forall|x: HeaderConfig| #[trigger] r(x) == HeaderConfig { POTCreationDate: v, ..x }

func po.HeaderWithPORevisionDate(v) -> (r)
  ensures forall|x: HeaderConfig| #[trigger] r(x) == HeaderConfig { PORevisionDate: v, ..x }

func po.HeaderWithXGenerator(v) -> (r)
  ensures forall|x: HeaderConfig| #[trigger] r(x) == HeaderConfig { XGenerator: v, ..x }

func po.HeaderWtihContentTransferEncoding(v) -> (r)
  ensures forall|x: HeaderConfig| #[trigger] r(x) == HeaderConfig { ContentTransferEncoding: v, ..x }

func po.HeaderWithMediaType(v) -> (r)
  ensures forall|x: HeaderConfig| #[trigger] r(x) == HeaderConfig { MediaType: v, ..x }

func po.HeaderWithCharset(v) -> (r)
  ensures forall|x: HeaderConfig| #[trigger] r(x) == HeaderConfig { Charset: v, ..x }

func po.HeaderWithMimeVersion(v) -> (r)
  ensures forall|x: HeaderConfig| #[trigger] r(x) == HeaderConfig { MimeVersion: v, ..x }

func po.HeaderWithNplurals(v) -> (r)
  ensures forall|x: HeaderConfig| #[trigger] r(x) == HeaderConfig { Nplurals: v, ..x }

func po.HeaderWithProjectIDVersion(v) -> (r)
  ensures forall|x: HeaderConfig| #[trigger] r(x) == HeaderConfig { ProjectIDVersion: v, ..x }

func po.HeaderWithReportMsgidBugsTo(v) -> (r)
  ensures forall|x: HeaderConfig| #[trigger] r(x) == HeaderConfig { ReportMsgidBugsTo: v, ..x }

func po.HeaderWithLanguage(v) -> (r)
  ensures forall|x: HeaderConfig| #[trigger] r(x) == HeaderConfig { Language: v, ..x }

func po.HeaderWithLanguageTeam(v) -> (r)
  ensures forall|x: HeaderConfig| #[trigger] r(x) == HeaderConfig { LanguageTeam: v, ..x }

func po.HeaderWithLastTranslator(v) -> (r)
  ensures forall|x: HeaderConfig| #[trigger] r(x) == HeaderConfig { LastTranslator: v, ..x }

func po.NewHeader(options) -> (r)
  ensures r.Fields == cfg_fields(hopts(zero_HeaderConfig(), options, options.len() as int))
  ensures r.Template == hopts(zero_HeaderConfig(), options, options.len() as int).Template
  local h: github.com/Tom5521/gotext-tools/v2/pkg/po.HeaderConfig
  loop 1
  invariant h == hopts(zero_HeaderConfig(), options, IDX)

func po.HeaderConfigFromOptions(options) -> (r)
  ensures r == hopts(zero_HeaderConfig(), options, options.len() as int)
  local h: github.com/Tom5521/gotext-tools/v2/pkg/po.HeaderConfig
  loop 1
  invariant h == hopts(zero_HeaderConfig(), options, IDX)

func po.DefaultHeaderConfig(opts) -> (r)
  ensures r == hopts(default_header_config(), opts, opts.len() as int)
  local h: github.com/Tom5521/gotext-tools/v2/pkg/po.HeaderConfig
  loop 1
  invariant h == hopts(default_header_config(), opts, IDX)

func po.DefaultTemplateHeaderConfig(opts) -> (r)
  ensures r == hopts(default_template_config(), opts, opts.len() as int)
  local h: github.com/Tom5521/gotext-tools/v2/pkg/po.HeaderConfig
  loop 1
  invariant h == hopts(default_template_config(), opts, IDX)

func po.HeaderConfig.Validate(cfg) -> (r)
  ensures r.len() == bad_settings(cfg) && (r.len() == 0) == header_cfg_valid(cfg)
  ensures forall|i: int| 0 <= i < r.len() ==> !(#[trigger] r[i] is Nil)
