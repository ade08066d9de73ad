# The one-call writers (C02, C05, C12, C14).

func compile.DefaultMoConfig(opts) -> (r)
  ensures r == mo_wr_settings(opts)

func compile.DefaultPoConfig(opts) -> (r)
  ensures r == po_wr_settings(opts)

func compile.NewMo(file, opts) -> (r)
  ensures r.File == Some(file) && r.Config == mo_wr_settings(opts)

func compile.NewPo(file, options) -> (r)
  ensures r.File == Some(file) && r.Config == po_wr_settings(options)

func compile.file(i) -> (r)
  ensures i.cat_some() ==> r == Some(i.cat_file())
  ensures !i.cat_some() ==> r is None

func compile.PoToWriter(f, w, opts) -> (r)
  requires f.cat_some()
  ensures ({ let x = po_wr_settings(opts); map_is_nil(x.Highlight) && ((r is Nil && !x.IgnoreErrors) || gw_is_buf(w.sink)) ==> w_out.out == w.out.add(po_document(x, f.cat_file().Entries.d)) })
  ensures gw_is_buf(w.sink) ==> r is Nil

func compile.PoToString(f, opts) -> (r)
  requires f.cat_some()
  ensures ({ let x = po_wr_settings(opts); map_is_nil(x.Highlight) ==> r == po_document(x, f.cat_file().Entries.d) })

func compile.PoToBytes(f, opts) -> (r)
  requires f.cat_some()
  ensures ({ let x = po_wr_settings(opts); map_is_nil(x.Highlight) ==> r == po_document(x, f.cat_file().Entries.d) })

func compile.PoToFile(f, path, opts, fs) -> (r)
  world
  requires f.cat_some()
  ensures fs_else(fs, fs_out, path)
  ensures ({ let x = po_wr_settings(opts); !x.ForcePo && fs.files.contains_key(path) ==> fs_out == fs && (r is Nil ==> x.IgnoreErrors) })
  ensures ({ let x = po_wr_settings(opts); r is Nil && !x.IgnoreErrors && map_is_nil(x.Highlight) ==> fs_out.files.contains_key(path) && fs_out.files[path] == po_document(x, f.cat_file().Entries.d) })

func compile.MoToWriter(f, w, opts) -> (r)
  requires f.cat_some()
  requires f.cat_file().Entries.d.len() < 0xfff_fff0
  ensures ({ let x = mo_wr_settings(opts); (r is Nil && !x.IgnoreErrors) || gw_is_buf(w.sink) ==> w_out.out == w.out.add(mo_file(x, f.cat_file().Entries.d)) })
  ensures gw_is_buf(w.sink) ==> r is Nil

func compile.MoToBytes(f, opts) -> (r)
  requires f.cat_some()
  requires f.cat_file().Entries.d.len() < 0xfff_fff0
  ensures r == mo_file(mo_wr_settings(opts), f.cat_file().Entries.d)

func compile.MoToFile(f, path, opts, fs) -> (r)
  world
  requires f.cat_some()
  requires f.cat_file().Entries.d.len() < 0xfff_fff0
  ensures fs_else(fs, fs_out, path)
  ensures ({ let x = mo_wr_settings(opts); !x.Force && fs.files.contains_key(path) ==> fs_out == fs && (r is Nil ==> x.IgnoreErrors) })
  ensures ({ let x = mo_wr_settings(opts); r is Nil && !x.IgnoreErrors ==> fs_out.files.contains_key(path) && fs_out.files[path] == mo_file(x, f.cat_file().Entries.d) })
