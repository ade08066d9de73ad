// include cli.rs, merge.rs
// msgomerge (C18): what is read, and the catalogue that is written
pub open spec fn mg_path(dir: Seq<u8>, p: Seq<u8>) -> Seq<u8> { if dir.len() > 0 { fp_join(seq![dir, p]) } else { p } }
pub open spec fn mg_data(p: Seq<u8>) -> Seq<u8> { gr_data(gr_file(os_open(p))) }
pub open spec fn mg_in_ok(p: Seq<u8>) -> bool { os_open_err(p) is Nil && gr_err(gr_file(os_open(p))) is Nil && rd_ok(rd_cfg(po_in(true)), os_name(os_open(p)), mg_data(p)) }
pub open spec fn mg_in(p: Seq<u8>) -> Seq<Entry> { rd_parse(rd_cfg(po_in(true)), os_name(os_open(p)), mg_data(p))->0 }
pub open spec fn mg_comp_ok(p: Seq<u8>) -> bool { os_read_err(p) is Nil && rd_ok(rd_cfg(po_in(true)), p, os_data(p)) }
pub open spec fn mg_comp(p: Seq<u8>) -> Seq<Entry> { rd_parse(rd_cfg(po_in(true)), p, os_data(p))->0 }
pub open spec fn mg_ok(dir: Seq<u8>, args: Seq<Seq<u8>>, comps: Seq<Seq<u8>>) -> bool {
    &&& mg_in_ok(mg_path(dir, args[0]))
    &&& mg_in_ok(mg_path(dir, args[1]))
    &&& forall|i: int| 0 <= i < comps.len() ==> mg_comp_ok(mg_path(dir, #[trigger] comps[i]))
}
pub open spec fn mg_plus(dir: Seq<u8>, reff: Seq<Entry>, comps: Seq<Seq<u8>>, n: int) -> Seq<Entry>
    decreases n
{ if n <= 0 { reff } else { mg_plus(dir, reff, comps, n - 1).add(mg_comp(mg_path(dir, comps[n - 1]))) } }
// the template with the messages of the compendiums
pub open spec fn mg_ref(dir: Seq<u8>, p: Seq<u8>, comps: Seq<Seq<u8>>) -> Seq<Entry> {
    let r = mg_in(mg_path(dir, p));
    if comps.len() > 0 { sv(fv_po_SolveMerge_s(), mg_plus(dir, r, comps, comps.len() as int)) } else { r }
}
