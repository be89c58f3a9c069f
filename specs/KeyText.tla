------------------------------ MODULE KeyText -------------------------------
(***************************************************************************)
(* Keys as text for people.  A text is a set of << name, value >>: numbers *)
(* are big naturals, points are << "point", x, y >>.  The names are those  *)
(* of the sections of the text; other sections may be there as well.       *)
(***************************************************************************)
EXTENDS KeyCodec
TextNames == {"priv", "pub", "Polynomial", "A", "B", "Generator", "Order"}
PointText(P) == << "point", P.x, P.y >>
ParamText(cv) == { << "Polynomial", << "number", cv.p >> >>, << "A", << "number", cv.a >> >>, << "B", << "number", cv.b >> >>,
                   << "Generator", PointText(Base(cv)) >>, << "Order", << "number", cv.n >> >> }
PubText(k) == ParamText(k.cv) \cup (IF k.hasQ THEN { << "pub", PointText(k.Q) >> } ELSE {})
PrivText(k) == PubText(k) \cup (IF k.hasD THEN { << "priv", << "number", k.d >> >> } ELSE {})
TextOf(k, what) == CASE what = "par" -> ParamText(k.cv) [] what = "pub" -> PubText(k) [] what = "priv" -> PrivText(k)
\* recorded sections: << name, octets >>, big-endian; a point is 4, x, y
Value(cv, name, o) == IF name \in {"pub", "Generator"}
                      THEN IF Len(o) = 1 + 2 * FieldBytes(cv) /\ o[1] = 4
                           THEN << "point", BigBe(SubSeq(o, 2, 1 + FieldBytes(cv))), BigBe(SubSeq(o, 2 + FieldBytes(cv), Len(o))) >>
                           ELSE << "no point" >>
                      ELSE << "number", BigBe(o) >>
Sections(cv, ss) == { << ss[j][1], Value(cv, ss[j][1], ss[j][2]) >> : j \in { h \in 1..Len(ss) : ss[h][1] \in TextNames } }
TextGood(k, what, r) ==
  /\ k.hasQ /\ (what = "priv" => k.hasD) => r.ok = 1
  /\ r.ok = 1 => Sections(k.cv, r.text) = TextOf(k, what)
  \* the private value does not appear under another name either
  /\ k.hasD /\ what # "priv" /\ NumBits(k.d) > 64 => \A j \in 1..Len(r.text) : BigBe(r.text[j][2]) # k.d
=============================================================================
