-------------------------------- MODULE Splits --------------------------------
(* Splitting data sets.  A row is the sequence of the example identities that *)
(* its fields carry (all equal when the fields of an example stay together).  *)
EXTENDS Integers, Sequences, FiniteSets

SC(name, ok) == IF ok THEN {} ELSE {name}
SplitsInit == [none |-> 0]
Ids(n) == 0..(n - 1)
Together(rows) == \A i \in DOMAIN rows : \A f \in DOMAIN rows[i] : rows[i][f] = rows[i][1]
Count(rows, x) == Cardinality({i \in DOMAIN rows : rows[i][1] = x})
Seen(rows) == {rows[i][1] : i \in DOMAIN rows}

SplitFails(r) ==
  IF r.raised THEN {"C18:raises"}
  ELSE SC("C18:test_fraction", Len(r.test) = (r.n * r.num) \div r.den)
       \cup SC("C18:partition", \A x \in Ids(r.n) : Count(r.train, x) + Count(r.test, x) = 1)
       \cup SC("C18:nothing_invented", Len(r.train) + Len(r.test) = r.n)
       \cup SC("C18:fields_together", Together(r.train) /\ Together(r.test))
       \cup SC("C18:function_of_key", r.again)
       \cup SC("C18:input_unchanged", r.kept)
BootFails(r) ==
  IF r.raised THEN {"C18:raises"}
  ELSE SC("C18:bootstrap_size", Len(r.train) = r.n)
       \cup SC("C18:bootstrap_draws_examples", Seen(r.train) \subseteq Ids(r.n))
       \cup SC("C18:tests_on_the_rest", \A x \in Ids(r.n) : Count(r.test, x) = IF x \in Seen(r.train) THEN 0 ELSE 1)
       \cup SC("C18:nothing_invented", Seen(r.test) \subseteq Ids(r.n))
       \cup SC("C18:fields_together", Together(r.train) /\ Together(r.test))
       \cup SC("C18:function_of_key", r.again)
       \cup SC("C18:input_unchanged", r.kept)

\* Several splits, possibly augmented by a group of r.group symmetries; all test
\* sets are cut to the length of the shortest.
Times(r) == IF r.augment THEN r.group ELSE 1
TestSize(r, s) == IF r.how = "none" THEN r.n
                  ELSE IF r.how = "boot" THEN r.n - Cardinality(Seen(r.trains[s]))
                  ELSE (r.n * r.num) \div r.den
Shortest(r) == CHOOSE m \in {TestSize(r, s) : s \in DOMAIN r.trains} : \A s \in DOMAIN r.trains : m <= TestSize(r, s)
OneSplit(r, s) ==
  LET tr == r.trains[s] te == r.tests[s] g == Times(r) IN
  SC("C18:augmented_after_splitting", \A x \in Ids(r.n) : Count(tr, x) % g = 0)
  \cup SC("C18:training_size", Len(tr) = g * (IF r.how = "split" THEN r.n - TestSize(r, s) ELSE r.n))
  \cup (IF r.how = "none" THEN SC("C18:whole_data", \A x \in Ids(r.n) : Count(tr, x) = g)
        ELSE SC("C18:no_test_example_in_training", Seen(tr) \cap Seen(te) = {}))
  \cup (IF r.how = "split" THEN SC("C18:partition", \A x \in Ids(r.n) : Count(tr, x) \in {0, g}) ELSE {})
  \cup SC("C18:test_size", Len(te) = g * Shortest(r))
  \cup SC("C18:test_examples_once", \A x \in Ids(r.n) : Count(te, x) <= g)
  \cup SC("C18:nothing_invented", Seen(tr) \cup Seen(te) \subseteq Ids(r.n))
  \cup SC("C18:fields_together", Together(tr) /\ Together(te))
ManyFails(r) ==
  IF r.raised THEN {"C18:raises"}
  ELSE SC("C18:number_of_splits", Len(r.trains) = r.splits /\ Len(r.tests) = r.splits)
       \cup (IF Len(r.trains) # Len(r.tests) \/ Len(r.trains) = 0 THEN {}
             ELSE UNION {OneSplit(r, s) : s \in DOMAIN r.trains})
       \* Two draws from eight or more examples do not coincide by chance.
       \cup SC("C18:independent_splits", (r.n >= 8 /\ r.how # "none" /\ (r.how = "split" => (r.n * r.num) \div r.den > 1)) =>
                 \A a, b \in DOMAIN r.trains : a # b => r.trains[a] # r.trains[b])
       \cup SC("C18:function_of_key", r.again)

\* Over many keys every example is as likely to be tested on as any other:
\* id x was tested on cnt[x] times of r.keys, each time with chance p1000/1000.
FairFails(r) == SC("C18:fair", \A x \in DOMAIN r.cnt :
  LET d == r.cnt[x] - (r.keys * r.p1000) \div 1000 IN d * d <= 36 * ((r.keys * r.p1000) \div 1000) + 36)

SplitsFails(st, r) == CASE r.e = "Split" -> SplitFails(r) [] r.e = "Boot" -> BootFails(r)
                        [] r.e = "Many" -> ManyFails(r) [] r.e = "Fair" -> FairFails(r) [] OTHER -> {}
SplitsAfter(st, r) == st
===============================================================================
