----------------------------- MODULE OgdlTypes -----------------------------
(***************************************************************************)
(* Contents of nodes: records [t, b, g] with t the kind ("s" text, "b"     *)
(* bytes, "i" integer, "f" float, "o" boolean, "n" nothing), b the bytes   *)
(* (the decimal text of a number) and g the name of the native type.       *)
(***************************************************************************)
EXTENDS OgdlNum

Str_(b)  == [t |-> "s", b |-> b, g |-> ""]
Byt_(b)  == [t |-> "b", b |-> b, g |-> ""]
Nil_     == [t |-> "n", b |-> <<>>, g |-> ""]
Int64_(a) == [t |-> "i", b |-> IntBytes(a), g |-> "int64"]
TrueT == <<116,114,117,101>>
FalseT == <<102,97,108,115,101>>
Bool_(x) == [t |-> "o", b |-> IF x THEN TrueT ELSE FalseT, g |-> ""]

\* v is the float that the text b denotes (b is known to be a float text)
FloatIs(v, b) ==
  /\ v.t = "f"
  /\ IF IsNanText(b) THEN IsNanText(v.b)
     ELSE IF IsInfText(b) THEN IsInfText(v.b) /\ Negative(v.b) = Negative(b)
     ELSE LET d == DecimalOf(b) IN
          \/ ~SafeDecimal(d)                    \* only the type is specified
          \/ d.d = <<>> /\ DecimalOf(v.b).d = <<>>
          \/ DecimalOf(v.b) = d

IsFloatText(b) == FloatParts(b).ok \/ IsInfText(b) \/ IsNanText(b)
\* Out of the range of a float (or at its edge): not specified here
HugeFloat(b) == FloatParts(b).ok /\ LET d == DecimalOf(b) IN ~Small(d.e) \/ ToInt(d.e) > 305 \/ ToInt(d.e) < -300

\* v is the scalar that an unquoted text b yields when types are asked for
PlainScalar(v, b) ==
  \/ OddNumber(b)
  \/ IF IsInt64Text(b) THEN v = Int64_(IntFromText(b))
     ELSE IF IsFloatText(b) THEN HugeFloat(b) \/ (FloatIs(v, b) /\ v.g = "float64")
     ELSE IF b = TrueT THEN v = Bool_(TRUE)
     ELSE IF b = FalseT THEN v = Bool_(FALSE)
     ELSE v = Str_(b)
=============================================================================
