// include moread.rs
// include mo.rs
// include open.rs
// include extract.rs

// the configuration as it is while the options are in force
pub open spec fn with_goparse_config(c: Goparse_Config, o: Seq<spec_fn(Goparse_Config) -> Goparse_Config>) -> Goparse_Config
{ Goparse_Config { lastCfg: any_of_Goparse_Config(c), ..opts_goparse_config(c, o, o.len() as int) } }
// only a configuration is ever saved (the field is private; see ApplyOptions)
pub open spec fn cfg_ok_goparse_config(c: Goparse_Config) -> bool { go_any_is_nil(c.lastCfg) || any_is_Goparse_Config(c.lastCfg) }
