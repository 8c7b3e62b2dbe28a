------------------------------- MODULE Corpus -------------------------------
(***************************************************************************)
(* Pieces of text of each language the library reads, broken ones too, and *)
(* contexts in which to use them, odd ones too (C20).                      *)
(***************************************************************************)
EXTENDS OgdlEval, Json

Nd(l, v) == [l |-> l, v |-> v]
K(b) == [t |-> "k", b |-> b, g |-> ""]
S(b) == Str_(b)
Langs == <<
  [l |-> "text", t |-> << <<97>>, <<32>>, <<10>>, <<13>>, <<9>>, <<44>>, <<40>>, <<41>>, <<92>>, <<34>>, <<39>>, <<35>>, <<0>>, <<195>>, <<255>>, <<123>>, <<49>>, <<195,169>>, <<45,32>> >>],
  [l |-> "schema", t |-> << <<97>>, <<10>>, <<32>>, <<33,105,110,116>>, <<33,98,111,111,108>>, <<33,115,116,114,105,110,103>>, <<33,98,105,110,97,114,121>>, <<33>>, <<120,49>>, <<40>>, <<41>>, <<44>>, <<49>>, <<95>> >>],
  [l |-> "path", t |-> << <<97>>, <<98>>, <<108>>, <<102>>, <<111,46,77,115,95,115>>, <<122,122>>, <<46>>, <<91>>, <<93>>, <<123>>, <<125>>, <<40>>, <<41>>, <<49>>, <<45>>, <<39,97,39>>, <<34>>, <<95,108,101,110>>, <<95,116,104,105,115>>, <<32>>, <<44>>, <<61>>, <<43>>, <<0>>, <<195>>, <<92>> >>],
  [l |-> "expr", t |-> << <<97,46,98>>, <<108>>, <<102>>, <<111,46,77,95,115>>, <<122,122>>, <<46>>, <<49>>, <<45>>, <<43>>, <<33>>, <<61>>, <<42>>, <<47>>, <<37>>, <<60>>, <<38,38>>, <<124>>, <<40>>, <<41>>, <<91>>, <<93>>, <<123>>, <<125>>, <<39,50,39>>, <<34>>, <<44>>, <<32>>, <<0>>, <<255>>, <<116,114,117,101>> >>],
  [l |-> "tmpl", t |-> << <<36>>, <<92>>, <<97>>, <<40>>, <<41>>, <<123>>, <<125>>, <<36,105,102,40,49,41>>, <<36,105,102,40,122,122,41>>, <<36,101,108,115,101>>, <<36,101,108,115,101,105,102,40,97,41>>, <<36,101,110,100>>, <<36,102,111,114,40,105,44,108,41>>, <<36,102,111,114,40,97,44,95,116,104,105,115,41>>, <<36,98,114,101,97,107>>, <<36,40,97,61,49,41>>, <<36,40,108,61,108,41>>, <<105,102>>, <<102,111,114>>, <<101,108,115,101>>, <<108>>, <<44>>, <<49>>, <<32>>, <<46>>, <<255>>, <<36,105>> >>],
  [l |-> "json", t |-> << <<123>>, <<125>>, <<91>>, <<93>>, <<58>>, <<44>>, <<34>>, <<34,97,34>>, <<49>>, <<45>>, <<46>>, <<101>>, <<92>>, <<117,48,48>>, <<110,117,108,108>>, <<116,114,117,101>>, <<32>>, <<255>>, <<0>> >>],
  [l |-> "xml", t |-> << <<60>>, <<62>>, <<47>>, <<97>>, <<61>>, <<34>>, <<38>>, <<38,108,116>>, <<59>>, <<35>>, <<33>>, <<63>>, <<91>>, <<45>>, <<60,97,62>>, <<60,47,97,62>>, <<60,33,45,45>>, <<45,45,62>>, <<60,33,91,67,68,65,84,65,91>>, <<93,93,62>>, <<60,63,120,109,108,32>>, <<32>>, <<255>>, <<60,33,68,79,67,84,89,80,69,32>>, <<110,115,58,98>> >>],
  [l |-> "bin", t |-> << <<1>>, <<1,71,0>>, <<0>>, <<2>>, <<3>>, <<4>>, <<97>>, <<127>>, <<128>>, <<191>>, <<192,0>>, <<255>>, <<1,1>> >>],
  [l |-> "find", t |-> << <<97>>, <<46>>, <<42>>, <<43>>, <<63>>, <<40>>, <<41>>, <<91>>, <<93>>, <<124>>, <<92>>, <<94>>, <<36>>, <<123,49,44>>, <<125>>, <<40,63>>, <<105>>, <<45>>, <<255>> >>],
  [l |-> "lexer", t |-> << <<97>>, <<49>>, <<32>>, <<10>>, <<13>>, <<9>>, <<44>>, <<40>>, <<41>>, <<91>>, <<93>>, <<123>>, <<34>>, <<39>>, <<96>>, <<92>>, <<35>>, <<45>>, <<61>>, <<46>>, <<36>>, <<0>>, <<195>>, <<255>>, <<230,151,165>> >>] >>
Roots == << << >>,
  << Nd(0, S(<<97>>)), Nd(1, S(<<98>>)), Nd(2, S(<<53>>)), Nd(1, S(<<99>>)), Nd(2, Int64_(IntOf(1))), Nd(0, S(<<108>>)), Nd(1, Int64_(IntOf(1))), Nd(1, Int64_(IntOf(2))), Nd(1, S(<<120,32,121>>)), Nd(0, S(<<102>>)), Nd(1, K(<<102,115,95,115>>)), Nd(0, S(<<111>>)), Nd(1, K(<<111>>)), Nd(0, S(<<97>>)), Nd(1, S(<<115,101,99,111,110,100>>)) >>,
  << Nd(0, Nil_), Nd(1, S(<<97>>)), Nd(0, S(<<97>>)), Nd(1, Nil_), Nd(2, S(<<98>>)), Nd(1, Byt_(<<98,121>>)), Nd(0, S(<<108>>)), Nd(1, S(<<>>)), Nd(2, S(<<33,112>>)), Nd(3, S(<<97>>)), Nd(1, S(<<91>>)), Nd(2, S(<<98>>)), Nd(1, K(<<114>>)), Nd(0, S(<<98>>)), Nd(1, Bool_(FALSE)), Nd(0, S(<<95>>)), Nd(1, S(<<61>>)), Nd(2, S(<<97>>)), Nd(0, S(<<33,101>>)), Nd(1, S(<<33,112>>)), Nd(0, [t |-> "f", b |-> <<50,46,53,101,43,48,48>>, g |-> "float64"]), Nd(0, Int64_(IntOf(-1))), Nd(0, S(<<102>>)), Nd(1, K(<<114>>)), Nd(0, S(<<111>>)), Nd(1, K(<<102,103,95,120>>)) >> >>
LangOf(x) == Langs[x].l
Toks(x) == Langs[x].t
\* the languages read in a context
InContext == {"schema", "path", "expr", "tmpl", "find"}
=============================================================================
