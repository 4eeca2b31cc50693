------------------------------- MODULE Index -------------------------------
(* Searching: a file is a sequence of documents, a document a sequence of   *)
(* [k, v] properties; the index knows the named properties. A search gives  *)
(* the documents whose indexed properties have all the values, in file      *)
(* order. Values are atoms of the classes of equal values.                  *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
Has(doc, c) == \E i \in 1..Len(doc) : doc[i].k = c.k /\ doc[i].v = c.v
Matches(doc, indexed, conds) == /\ conds # <<>>
                                /\ \A i \in 1..Len(conds) : conds[i].k \in indexed /\ Has(doc, conds[i])
Hits(docs, indexed, conds) == SelectSeq([i \in 1..Len(docs) |-> i], LAMBDA i : Matches(docs[i], indexed, conds))
\* as an index computes it: per condition the set of documents, then the intersection
Posting(docs, indexed, c) == {i \in 1..Len(docs) : c.k \in indexed /\ Has(docs[i], c)}
ByPostings(docs, indexed, conds) ==
  IF conds = <<>> THEN {} ELSE {i \in 1..Len(docs) : \A j \in 1..Len(conds) : i \in Posting(docs, indexed, conds[j])}
\* a directory: the hits of every file, each file's in order, files in any order
InOrder(found, hits) == SelectSeq(found, LAMBDA x : x \in ToSet(hits)) = hits
DirOk(files, indexed, conds, found) ==   \* found: <<file, document>>
  /\ Len(found) = Cardinality(ToSet(found))
  /\ \A f \in 1..Len(files) :
       SelectSeq(found, LAMBDA x : x[1] = f) = [i \in 1..Len(Hits(files[f], indexed, conds)) |-> <<f, Hits(files[f], indexed, conds)[i]>>]
  /\ \A i \in 1..Len(found) : found[i][1] \in 1..Len(files)
=============================================================================
