// include header.rs
// Validation (C16).
// the rule the entry validator names: a singular and plural translations at once
pub open spec fn mixed(e: Entry) -> bool { e.Str.len() > 0 && e.Plurals.len() > 0 }
pub open spec fn mixed_error(e: Entry) -> GoErr { GoErr::InvalidEntryError(Box::new(InvalidEntryError { ID: uid(e), Reason: bad_plural() })) }
pub open spec fn bad_plural() -> GoErr { GoErr::Msg(b"the entry can't be plural and singular at the same time") }
pub open spec fn entry_errors(e: Entry) -> Seq<GoErr> { if mixed(e) { seq![mixed_error(e)] } else { Seq::empty() } }
pub open spec fn at_index(i: int, e: GoErr) -> GoErr { GoErr::InvalidEntryAtIndexError(Box::new(InvalidEntryAtIndexError { Index: i as i64, Reason: e })) }
pub open spec fn mixed_errors(s: Seq<Entry>) -> Seq<GoErr>
    decreases s.len()
{ if s.len() == 0 { Seq::empty() } else { let p = mixed_errors(s.drop_last()); if mixed(s.last()) { p.push(at_index(s.len() - 1, mixed_error(s.last()))) } else { p } } }
pub open spec fn in_file(name: Seq<u8>, e: GoErr) -> GoErr { GoErr::InvalidFileError(Box::new(InvalidFileError { Filename: name, Reason: e })) }
pub open spec fn validation(s: Seq<Entry>) -> Seq<GoErr> { dup_errors(s).add(mixed_errors(s)) }

// nothing is reported exactly when there is nothing to report
pub proof fn lemma_mixed_errors(s: Seq<Entry>)
    ensures (mixed_errors(s).len() == 0) == (forall|i: int| 0 <= i < s.len() ==> !mixed(#[trigger] s[i]))
    decreases s.len()
{
    if s.len() > 0 {
        let t = s.drop_last();
        lemma_mixed_errors(t);
        if mixed(s.last()) { assert(mixed(s[s.len() - 1])); }
        else {
            if mixed_errors(t).len() == 0 { assert forall|i: int| 0 <= i < s.len() implies !mixed(#[trigger] s[i]) by { if i < t.len() { assert(!mixed(t[i])); } } }
            else { let i = choose|i: int| 0 <= i < t.len() && mixed(#[trigger] t[i]); assert(mixed(s[i])); }
        }
    }
}
pub proof fn lemma_validation(s: Seq<Entry>)
    ensures (validation(s).len() == 0) == (all_distinct(s) && forall|i: int| 0 <= i < s.len() ==> !mixed(#[trigger] s[i]))
{ lemma_dup_errors(s); lemma_mixed_errors(s); }
// every message that breaks the rule is named
pub proof fn lemma_mixed_named(s: Seq<Entry>, i: int)
    requires 0 <= i < s.len(), mixed(s[i])
    ensures mixed_errors(s).contains(at_index(i, mixed_error(s[i])))
    decreases s.len()
{
    let t = s.drop_last();
    lemma_push_contains(mixed_errors(t), at_index(s.len() - 1, mixed_error(s.last())));
    if i < t.len() { assert(t[i] == s[i]); lemma_mixed_named(t, i); }
}
