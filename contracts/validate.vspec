# Contracts of the validators (C16).

func po.Entry.Validate(e) -> (r)
  ensures r == entry_errors(e)
  exit assert(r =~= entry_errors(e));

func po.Entries.Validate(e) -> (r)
  ensures r == validation(e.d)
  ensures (r.len() == 0) == (all_distinct(e.d) && forall|i: int| 0 <= i < e.d.len() ==> !mixed(#[trigger] e.d[i]))
  local errs: []error
  exit lemma_validation(e.d); assert(e.d.take(e.d.len() as int) =~= e.d);
  loop 1
  pre assert(e.d.take(0) =~= Seq::empty()); assert(errs =~= dup_errors(e.d).add(mixed_errors(e.d.take(0))));
  invariant errs == dup_errors(e.d).add(mixed_errors(e.d.take(IDX)))
  begin let x = e.d; assert(x.take(IDX).drop_last() =~= x.take(IDX - 1)); assert(x.take(IDX).last() == x[IDX - 1]);
  end assert(errs =~= dup_errors(e.d).add(mixed_errors(e.d.take(IDX))));
  loop 2
  invariant errs == dup_errors(e.d).add(mixed_errors(e.d.take(IDX1 - 1))).add(Seq::new(IDX as nat, |k: int| at_index(IDX1 - 1, RNG[k])))

func po.File.Validate(f) -> (r)
  ensures r.len() == validation(f.Entries.d).len()
  ensures forall|i: int| 0 <= i < r.len() ==> #[trigger] r[i] == in_file(f.Name, validation(f.Entries.d)[i])
  ensures (r.len() == 0) == (all_distinct(f.Entries.d) && forall|i: int| 0 <= i < f.Entries.d.len() ==> !mixed(#[trigger] f.Entries.d[i]))
  local errs: []error
  loop 1
  invariant errs.len() == validation(f.Entries.d).len()
  invariant forall|i: int| 0 <= i < IDX ==> #[trigger] errs[i] == in_file(f.Name, validation(f.Entries.d)[i])
  invariant forall|i: int| IDX <= i < errs.len() ==> #[trigger] errs[i] == validation(f.Entries.d)[i]

func po.File.CatchDuplicateEntries(f) -> (r)
  ensures r.len() == dup_errors(f.Entries.d).len()
  ensures forall|i: int| 0 <= i < r.len() ==> #[trigger] r[i] == in_file(f.Name, dup_errors(f.Entries.d)[i])
  local errs: []error
  loop 1
  invariant errs.len() == dup_errors(f.Entries.d).len()
  invariant forall|i: int| 0 <= i < IDX ==> #[trigger] errs[i] == in_file(f.Name, dup_errors(f.Entries.d)[i])
  invariant forall|i: int| IDX <= i < errs.len() ==> #[trigger] errs[i] == dup_errors(f.Entries.d)[i]

func compile.PoConfig.Validate(c) -> (r)
  ensures (r is Nil) == !(c.NoLocation && c.AddLocation != b"never")

func po.InvalidEntryError.Unwrap(e) -> (r)
  returns e.Reason

func po.InvalidEntryAtIndexError.Unwrap(e) -> (r)
  returns e.Reason

func po.InvalidFileError.Unwrap(e) -> (r)
  returns e.Reason

func po.DuplicatedEntryError.Error(e) -> (r)
  ensures r == b"entry is a duplicated of ".add(itoa(e.OriginalIndex as int))
