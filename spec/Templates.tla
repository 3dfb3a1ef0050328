----------------------------- MODULE Templates -----------------------------
(***************************************************************************)
(* The lattice motifs the library ships as ready-made networks.            *)
(*                                                                         *)
(* Square motifs are drawn: sites at lattice positions, horizontal         *)
(* neighbours joined r-l and vertical neighbours joined d-u, then legs on  *)
(* the same side fused.  In a mirrored motif the joined legs are the ones  *)
(* facing each other after reflecting every second column (or row).        *)
(***************************************************************************)
EXTENDS Ftn

N2(names, links, outs, post) == [names |-> names, pre |-> <<>>, links |-> links, outs |-> outs, post |-> post, locked |-> FALSE]
Out(ls, new) == [labels |-> ls, new |-> new]

\* 2 x 2 block of sites named <vertical><horizontal>, joined by the given legs
Block == <<"ul", "ur", "dr", "dl">>
BlockLinks(down, up, right, left) ==
    << <<"ul", right, "ur", left>>, <<"dl", right, "dr", left>>, <<"ul", down, "dl", up>>, <<"ur", down, "dr", up>> >>
Opp(d) == CASE d = "l" -> "r" [] d = "r" -> "l" [] d = "u" -> "d" [] d = "d" -> "u"

SquareBlock == N2(Block, BlockLinks("d", "u", "r", "l"),
             <<Out(<<"ul-u", "ur-u">>, "u"), Out(<<"ul-l", "dl-l">>, "l"), Out(<<"dl-d", "dr-d">>, "d"), Out(<<"ur-r", "dr-r">>, "r")>>, <<>>)
SquareOut == N2(Block, BlockLinks("d", "u", "r", "l"), <<>>,
                << <<"ul", "o", "u">>, <<"ur", "o", "r">>, <<"dr", "o", "d">>, <<"dl", "o", "l">> >>)
\* a block closed in the vertical direction; in the horizontal direction the sites face
\* each other with the leg opposite to d, and d legs stick out on both sides
SquareH(d) == N2(Block, BlockLinks("d", "u", Opp(d), Opp(d)) \o << <<"ul", "u", "ur", "u">>, <<"dl", "d", "dr", "d">> >>,
                 <<Out(<<Tag("u" \o d, d), Tag("d" \o d, d)>>, d), Out(<<Tag("u" \o Opp(d), d), Tag("d" \o Opp(d), d)>>, Opp(d))>>, <<>>)
SquareV(d) == N2(Block, BlockLinks(Opp(d), Opp(d), "r", "l") \o << <<"ul", "l", "dl", "l">>, <<"ur", "r", "dr", "r">> >>,
                 <<Out(<<Tag(d \o "l", d), Tag(d \o "r", d)>>, d), Out(<<Tag(Opp(d) \o "l", d), Tag(Opp(d) \o "r", d)>>, Opp(d))>>, <<>>)

\* three corners of a triangle, leg 1 outwards; leg 2 of each corner (counter-clockwise u, l, r) meets leg 3 of the next
Triangle == N2(<<"u", "l", "r">>, << <<"u", "2", "l", "3">>, <<"l", "2", "r", "3">>, <<"r", "2", "u", "3">> >>, <<>>,
               << <<"l", "1", "2">>, <<"r", "1", "3">> >>)

\* HOTRG: two sites u, d (or l, r) between two isometries
HotrgH == N2(<<"u", "d", "l", "r">>, << <<"u", "d", "d", "u">>, <<"l", "u", "u", "l">>, <<"l", "d", "d", "l">>,
                                        <<"r", "u", "u", "r">>, <<"r", "d", "d", "r">> >>, <<>>, << <<"l", "o", "l">>, <<"r", "o", "r">> >>)
HotrgV == N2(<<"l", "r", "u", "d">>, << <<"l", "r", "r", "l">>, <<"u", "l", "l", "u">>, <<"u", "r", "r", "u">>,
                                        <<"d", "l", "l", "d">>, <<"d", "r", "r", "d">> >>, <<>>, << <<"u", "o", "u">>, <<"d", "o", "d">> >>)

\* corner transfer matrices of a reflection symmetric lattice
HEdge == N2(<<"p", "w">>, << <<"w", "d", "p", "u">> >>, <<Out(<<"p-l", "w-l">>, "l"), Out(<<"p-r", "w-r">>, "r")>>, <<>>)
VEdge == N2(<<"p", "w">>, << <<"p", "r", "w", "l">> >>, <<Out(<<"p-u", "w-u">>, "u"), Out(<<"p-d", "w-d">>, "d")>>, <<>>)
Corner == N2(<<"c", "ph", "pv", "w">>, << <<"c", "r", "ph", "l">>, <<"pv", "r", "w", "l">>, <<"c", "u", "pv", "d">>, <<"ph", "u", "w", "d">> >>,
             <<Out(<<"pv-u", "w-u">>, "u"), Out(<<"ph-r", "w-r">>, "r")>>, <<>>)
HBuild == N2(<<"p", "al", "ar">>, << <<"p", "l", "al", "r">>, <<"p", "r", "ar", "r">> >>, <<>>, << <<"ar", "l", "r">> >>)
VBuild == N2(<<"p", "au", "ad">>, << <<"p", "d", "ad", "u">>, <<"p", "u", "au", "u">> >>, <<>>, << <<"au", "d", "u">> >>)
EvenZ == N2(<<"alu", "ald", "aru", "ard">>,
            << <<"alu", "r", "aru", "r">>, <<"ald", "r", "ard", "r">>, <<"alu", "u", "ald", "u">>, <<"aru", "u", "ard", "u">> >>, <<>>, <<>>)
\* w in the middle, an edge on each of its sides, and a corner between neighbouring edges
OddZ == N2(<<"w", "pu", "pd", "pl", "pr", "alu", "ald", "aru", "ard">>,
           << <<"w", "u", "pu", "u">>, <<"w", "d", "pd", "u">>, <<"w", "l", "pl", "r">>, <<"w", "r", "pr", "r">>,
              <<"pu", "l", "alu", "r">>, <<"pu", "r", "aru", "r">>, <<"pd", "l", "ald", "r">>, <<"pd", "r", "ard", "r">>,
              <<"pl", "u", "alu", "u">>, <<"pl", "d", "ald", "u">>, <<"pr", "u", "aru", "u">>, <<"pr", "d", "ard", "u">> >>, <<>>, <<>>)

\* tensor network renormalization
QEnvHalf(h) == << <<h \o "ul", "r", h \o "ur", "r">>, <<h \o "ul", "d", h \o "dl", "u">> >>
QEnv == N2(<<"uul", "uur", "udl", "udr", "dul", "dur", "ddl", "ddr">>,
           << <<"udl", "l", "udr", "l">>, <<"udl", "r", "dul", "r">>, <<"udl", "d", "dul", "d">>,
              <<"udr", "r", "dur", "r">>, <<"udr", "d", "dur", "d">>, <<"dul", "l", "dur", "l">>,
              <<"uur", "l", "ddr", "l">>, <<"uur", "u", "ddr", "u">>, <<"uur", "d", "udr", "u">>, <<"ddr", "d", "dur", "u">>,
              <<"uul", "r", "uur", "r">>, <<"uul", "d", "udl", "u">>, <<"ddl", "r", "ddr", "r">>, <<"ddl", "d", "dul", "u">> >>,
           <<Out(<<"uul-l", "uul-u">>, "1"), Out(<<"ddl-l", "ddl-u">>, "2")>>, <<>>)
QxA == N2(<<"q", "A">>, << <<"q", "h", "A", "l">>, <<"q", "v", "A", "u">> >>, <<>>, << <<"A", "r", "h">>, <<"A", "d", "v">> >>)
CNet == N2(<<"ul", "ur", "dl", "dr">>, << <<"ul", "v", "dl", "v">>, <<"ur", "v", "dr", "v">>, <<"ul", "h", "ur", "h">>, <<"dl", "h", "dr", "h">> >>, <<>>,
           << <<"ul", "o", "ul">>, <<"ur", "o", "ur">>, <<"dl", "o", "dl">>, <<"dr", "o", "dr">> >>)
CCNet == N2(<<"u", "d">>, << <<"u", "dl", "d", "dl">>, <<"u", "dr", "d", "dr">> >>, <<>>, << <<"d", "ul", "dl">>, <<"d", "ur", "dr">> >>)
SCEnvS == N2(<<"CC", "ql", "qr", "u", "yl", "yr">>,
             << <<"CC", "dl", "ql", "o">>, <<"CC", "dr", "qr", "o">>, <<"ql", "h", "yl", "h">>, <<"qr", "h", "yr", "h">>,
                <<"ql", "v", "u", "or">>, <<"qr", "v", "u", "ol">>, <<"yl", "v", "u", "ir">>, <<"yr", "v", "u", "il">> >>, <<>>,
             << <<"yl", "o", "dl">>, <<"yr", "o", "dr">> >>)

Template(t) ==
    CASE t = "triangle" -> Triangle [] t = "square" -> SquareBlock [] t = "squareout" -> SquareOut
      [] t = "squareH-l" -> SquareH("l") [] t = "squareH-r" -> SquareH("r")
      [] t = "squareV-u" -> SquareV("u") [] t = "squareV-d" -> SquareV("d")
      [] t = "hotrgH" -> HotrgH [] t = "hotrgV" -> HotrgV
      [] t = "hEdge" -> HEdge [] t = "vEdge" -> VEdge [] t = "corner" -> Corner
      [] t = "hBuild" -> HBuild [] t = "vBuild" -> VBuild [] t = "evenZ" -> EvenZ [] t = "oddZ" -> OddZ
      [] t = "qEnv" -> QEnv [] t = "qxA" -> QxA [] t = "c" -> CNet [] t = "cc" -> CCNet [] t = "scEnvS" -> SCEnvS

\* the legs each site of a motif has
Cross == <<"u", "d", "l", "r">>
LegsOf(t) ==
    CASE t = "triangle" -> [u |-> <<"1", "2", "3">>, l |-> <<"1", "2", "3">>, r |-> <<"1", "2", "3">>]
      [] t \in {"square", "squareH-l", "squareH-r", "squareV-u", "squareV-d"} -> [ul |-> Cross, ur |-> Cross, dr |-> Cross, dl |-> Cross]
      [] t = "squareout" -> [ul |-> <<"o", "d", "r">>, ur |-> <<"l", "o", "d">>, dr |-> <<"u", "l", "o">>, dl |-> <<"r", "o", "u">>]
      [] t \in {"hotrgH", "hotrgV"} -> LET iso == IF t = "hotrgH" THEN <<"u", "d", "o">> ELSE <<"l", "r", "o">>
                                       IN IF t = "hotrgH" THEN [u |-> Cross, d |-> Cross, l |-> iso, r |-> iso]
                                          ELSE [l |-> Cross, r |-> Cross, u |-> iso, d |-> iso]
      [] t = "hEdge" -> [p |-> <<"l", "r", "u">>, w |-> Cross]
      [] t = "vEdge" -> [p |-> <<"u", "d", "r">>, w |-> Cross]
      [] t = "corner" -> [c |-> <<"u", "r">>, ph |-> <<"l", "r", "u">>, pv |-> <<"u", "d", "r">>, w |-> Cross]
      [] t = "hBuild" -> [p |-> <<"l", "r", "u">>, al |-> <<"l", "r">>, ar |-> <<"l", "r">>]
      [] t = "vBuild" -> [p |-> <<"u", "d", "r">>, au |-> <<"u", "d">>, ad |-> <<"u", "d">>]
      [] t = "evenZ" -> LET c == <<"u", "r">> IN [alu |-> c, ald |-> c, aru |-> c, ard |-> c]
      [] t = "oddZ" -> LET c == <<"u", "r">> h == <<"l", "r", "u">> v == <<"u", "d", "r">>
                       IN [alu |-> c, ald |-> c, aru |-> c, ard |-> c, pu |-> h, pd |-> h, pl |-> v, pr |-> v, w |-> Cross]
      [] t = "qEnv" -> [n \in {"uul", "uur", "udl", "udr", "dul", "dur", "ddl", "ddr"} |-> Cross]
      [] t = "qxA" -> [q |-> <<"h", "v", "o">>, A |-> Cross]
      [] t = "c" -> LET q == <<"v", "h", "o">> IN [ul |-> q, ur |-> q, dl |-> q, dr |-> q]
      [] t = "cc" -> LET q == <<"ul", "ur", "dl", "dr">> IN [u |-> q, d |-> q]
      [] t = "scEnvS" -> LET y == <<"h", "v", "o">>
                         IN [CC |-> <<"ul", "ur", "dl", "dr">>, ql |-> y, qr |-> y, yl |-> y, yr |-> y, u |-> <<"ol", "or", "il", "ir">>]

All == {"triangle", "square", "squareout", "squareH-l", "squareH-r", "squareV-u", "squareV-d", "hotrgH", "hotrgV", "hEdge", "vEdge",
        "corner", "hBuild", "vBuild", "evenZ", "oddZ", "qEnv", "qxA", "c", "cc", "scEnvS"}
=============================================================================
