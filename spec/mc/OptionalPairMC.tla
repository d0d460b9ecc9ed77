--------------------------- MODULE OptionalPairMC ----------------------------
EXTENDS OptionalPair, TLC, Json
ExportT == PrintT("T " \o ToJson(<<<<v.l, v.r>>, ev'.op, ev'.c, <<v'.l, v'.r>>>>))
ExportS == PrintT("S " \o ToJson(<<<<v.l, v.r>>, Obs(v)>>))
\* the conversions from Option<(Option, Option)> that are not images of OptionPair
ExportN == PrintT("N " \o ToJson(<<<<v.l, v.r>>,
                 [from |-> {o \in {<<>>} \cup {<< <<a, b>> >> : a \in Opts, b \in Opts} : FromOptionPair(o) = v}]>>))
=============================================================================
