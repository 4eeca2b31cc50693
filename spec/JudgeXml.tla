------------------------------ MODULE JudgeXml ------------------------------
(* C24: a document, export options, and the parsed export.                  *)
EXTENDS JudgeCases, Xml
Bad1(cs) == LET o == cs.out IN
  IF o.wf THEN XmlBad(o.doc, o.tree, o.opts) ELSE {"C24.not-well-formed"}
=============================================================================
