// include mo.rs
// include powrite.rs

// what a one-call writer accepts: a file (behind a pointer or not), or a list of entries
pub trait Catalogue: Sized { spec fn cat_some(self) -> bool; spec fn cat_file(self) -> File; }
impl Catalogue for Option<File> {
    open spec fn cat_some(self) -> bool { self is Some }
    open spec fn cat_file(self) -> File { self->0 }
}
impl Catalogue for File {
    open spec fn cat_some(self) -> bool { true }
    open spec fn cat_file(self) -> File { self }
}
impl Catalogue for Sl<Entry> {
    open spec fn cat_some(self) -> bool { true }
    open spec fn cat_file(self) -> File { File { Entries: self, ..zero_File() } }
}
// the settings a writer has when it is made with options
pub open spec fn mo_wr_settings(o: Seq<spec_fn(Compile_MoConfig) -> Compile_MoConfig>) -> Compile_MoConfig {
    with_compile_moconfig(Compile_MoConfig { HashTable: true, DepureEntries: true, SortEntries: true, ..zero_Compile_MoConfig() }, o)
}
pub open spec fn po_wr_settings(o: Seq<spec_fn(Compile_PoConfig) -> Compile_PoConfig>) -> Compile_PoConfig {
    with_compile_poconfig(Compile_PoConfig { Logger: Some(zero_GoLogger()), PackageName: b"PACKAGE NAME", AddLocation: b"full", ..zero_Compile_PoConfig() }, o)
}
