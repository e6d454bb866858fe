---------------------------- MODULE ExtractTrace ----------------------------
EXTENDS Extract, TraceKit
Step(e) ==
  CASE e.op = "bit"   -> GetBit(e.v, e.i, e.r, ~e.err)
    [] e.op = "byte"  -> GetByte(e.v, e.i, e.r, ~e.err)
    [] e.op = "word"  -> GetWord(e.v, e.i, e.r, ~e.err)
    [] e.op = "comma" -> CommaString(e.n, e.s) = TRUE
    [] e.op = "btoi"  -> e.i = (IF e.b THEN 1 ELSE 0) /\ e.i2 = e.i
    [] e.op = "itob"  -> e.b = (e.abs # <<>>)
    [] OTHER -> FALSE
TraceNext == (KitNext /\ NoPanic(Ev) /\ Step(Ev) = TRUE) \/ KitDone
TraceSpec == KitInit /\ [][TraceNext]_<<tr, l>>
=============================================================================
