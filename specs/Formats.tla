------------------------------ MODULE Formats -------------------------------
(* The rule for valid formats, identifiers and names. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Gray == 1 RGB == 2 YUV == 3
Float == 1
ValidV(cf, st, bits, w, h) ==
  /\ cf \in {Gray, RGB, YUV} /\ st \in {0, Float} /\ bits \in 8..32 /\ (st = Float => bits \in {16, 32})
  /\ w \in 0..4 /\ h \in 0..4 /\ (cf # YUV => w = 0 /\ h = 0)
ValidA(st, bits, layout) == st \in {0, Float} /\ bits \in 16..32 /\ (st = Float => bits = 32) /\ layout # {}
Bytes(bits) == IF bits <= 8 THEN 1 ELSE IF bits <= 16 THEN 2 ELSE 4
Planes(cf) == IF cf = Gray THEN 1 ELSE 3
\* identifiers are 32 bit: given as two halves
IdHi(cf, st, bits) == cf * 4096 + st * 256 + bits
IdLo(w, h) == w * 256 + h
Decode(hi, lo) == [cf |-> hi \div 4096, st |-> (hi \div 256) % 16, bits |-> hi % 256, w |-> lo \div 256, h |-> lo % 256]
Depth(cf, st, bits) == IF st = Float THEN (IF bits = 32 THEN "S" ELSE "H") ELSE ToString(IF cf = RGB THEN 3 * bits ELSE bits)
Sub == [p \in {<<1, 1>>, <<1, 0>>, <<0, 0>>, <<2, 2>>, <<2, 0>>, <<0, 1>>} |->
         CASE p = <<1, 1>> -> "420" [] p = <<1, 0>> -> "422" [] p = <<0, 0>> -> "444" [] p = <<2, 2>> -> "410" [] p = <<2, 0>> -> "411" [] OTHER -> "440"]
\* formats with a customary subsampling have a known name, others any name of their own
NameV(cf, st, bits, w, h) == CASE cf = Gray -> "Gray" \o Depth(cf, st, bits) [] cf = RGB -> "RGB" \o Depth(cf, st, bits)
    [] OTHER -> IF <<w, h>> \in DOMAIN Sub THEN "YUV" \o Sub[<<w, h>>] \o "P" \o Depth(cf, st, bits)
                ELSE "YUVssw" \o ToString(w) \o "ssh" \o ToString(h) \o "P" \o Depth(cf, st, bits)
Known(cf, w, h) == cf # YUV \/ <<w, h>> \in DOMAIN Sub
NameA(st, bits, n) == "Audio" \o ToString(bits) \o (IF st = Float THEN "F" ELSE "") \o " (" \o ToString(n) \o " CH)"
Put(f, k, v) == (k :> v) @@ f
=============================================================================
