# Readers from paths, open files, readers, texts (C04, C05, C06).

func parse.DefaultMoConfig(opts) -> (r)
  ensures r == mo_rd_settings(opts)

func parse.DefaultPoConfig(opts) -> (r)
  ensures r == po_rd_settings(opts)

func parse.NewPoFromBytes(data, name, options) -> (r)
  ensures po_rd_new(r, name, data, options)

func parse.NewPoFromString(s, name, options) -> (r)
  ensures po_rd_new(r, name, s, options)

func parse.NewPoFromReader(rd, name, options) -> (r, err)
  ensures (err is Nil) == (gr_err(rd) is Nil)
  ensures err is Nil ==> po_rd_new(r, name, gr_data(rd), options)
  ensures !(err is Nil) ==> r is None

func parse.NewPoFromFile(f, options) -> (r, err)
  ensures (err is Nil) == (gr_err(gr_file(f)) is Nil)
  ensures err is Nil ==> po_rd_new(r, os_name(f), gr_data(gr_file(f)), options)
  ensures !(err is Nil) ==> r is None

func parse.NewPo(path, options) -> (r, err)
  ensures (err is Nil) == (os_read_err(path) is Nil)
  ensures err is Nil ==> po_rd_new(r, path, os_data(path), options)
  ensures !(err is Nil) ==> r is None

func parse.NewMoFromBytes(b, name, opts) -> (r)
  ensures mo_rd_new(r, name, b, opts)

func parse.NewMoFromReader(rd, name, opts) -> (r, err)
  ensures (err is Nil) == (gr_err(rd) is Nil)
  ensures err is Nil ==> mo_rd_new(r, name, gr_data(rd), opts)
  ensures !(err is Nil) ==> r is None

func parse.NewMoFromFile(f, opts) -> (r, err)
  ensures (err is Nil) == (gr_err(gr_file(f)) is Nil)
  ensures err is Nil ==> mo_rd_new(r, os_name(f), gr_data(gr_file(f)), opts)
  ensures !(err is Nil) ==> r is None

func parse.NewMo(path, opts) -> (r, err)
  ensures (err is Nil) == (os_open_err(path) is Nil && gr_err(gr_file(os_open(path))) is Nil)
  ensures err is Nil ==> mo_rd_new(r, path, gr_data(gr_file(os_open(path))), opts)
  ensures !(err is Nil) ==> r is None

func parse.PoFromBytes(b, name, opts) -> (file, err)
  ensures po_rd_file(po_rd_settings(opts), name, b, file)
  ensures (err is Nil) == rd_ok(rd_cfg(po_rd_settings(opts)), name, b)

func parse.PoFromString(s, name, opts) -> (file, err)
  ensures po_rd_file(po_rd_settings(opts), name, s, file)
  ensures (err is Nil) == rd_ok(rd_cfg(po_rd_settings(opts)), name, s)

func parse.PoFromReader(rd, name, opts) -> (file, err)
  ensures !(gr_err(rd) is Nil) ==> file is None && !(err is Nil)
  ensures gr_err(rd) is Nil ==> po_rd_file(po_rd_settings(opts), name, gr_data(rd), file) && (err is Nil) == rd_ok(rd_cfg(po_rd_settings(opts)), name, gr_data(rd))

func parse.PoFromFile(f, opts) -> (file, err)
  ensures !(gr_err(gr_file(f)) is Nil) ==> file is None && !(err is Nil)
  ensures gr_err(gr_file(f)) is Nil ==> po_rd_file(po_rd_settings(opts), os_name(f), gr_data(gr_file(f)), file) && (err is Nil) == rd_ok(rd_cfg(po_rd_settings(opts)), os_name(f), gr_data(gr_file(f)))

func parse.Po(path, opts) -> (file, err)
  ensures !(os_read_err(path) is Nil) ==> file is None && !(err is Nil)
  ensures os_read_err(path) is Nil ==> po_rd_file(po_rd_settings(opts), path, os_data(path), file) && (err is Nil) == rd_ok(rd_cfg(po_rd_settings(opts)), path, os_data(path))

func parse.MoFromBytes(b, name, opts) -> (file, err)
  ensures mo_rd_file(mo_rd_settings(opts), name, b, file)
  ensures (err is Nil) == mo_rd_fine(mo_rd_settings(opts), b)

func parse.MoFromReader(rd, name, opts) -> (file, err)
  ensures !(gr_err(rd) is Nil) ==> file is None && !(err is Nil)
  ensures gr_err(rd) is Nil ==> mo_rd_file(mo_rd_settings(opts), name, gr_data(rd), file) && (err is Nil) == mo_rd_fine(mo_rd_settings(opts), gr_data(rd))

func parse.MoFromFile(f, opts) -> (file, err)
  ensures !(gr_err(gr_file(f)) is Nil) ==> file is None && !(err is Nil)
  ensures gr_err(gr_file(f)) is Nil ==> mo_rd_file(mo_rd_settings(opts), os_name(f), gr_data(gr_file(f)), file) && (err is Nil) == mo_rd_fine(mo_rd_settings(opts), gr_data(gr_file(f)))

func parse.Mo(path, opts) -> (file, err)
  ensures !(os_open_err(path) is Nil && gr_err(gr_file(os_open(path))) is Nil) ==> file is None && !(err is Nil)
  ensures os_open_err(path) is Nil && gr_err(gr_file(os_open(path))) is Nil ==> mo_rd_file(mo_rd_settings(opts), path, gr_data(gr_file(os_open(path))), file) && (err is Nil) == mo_rd_fine(mo_rd_settings(opts), gr_data(gr_file(os_open(path))))
