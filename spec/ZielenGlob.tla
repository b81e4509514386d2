------------------------------ MODULE ZielenGlob ------------------------------
(***************************************************************************)
(* The language of exclude patterns.                                        *)
(*                                                                          *)
(* Characters are code points, a line or the name of a file is a sequence   *)
(* of them, and a path is a sequence of names.  A tree is a function from   *)
(* paths to whether they are directories.                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Star == 42  Question == 63  Open == 91  Close == 93  Slash == 47
Hash == 35  Dot == 46       Dash == 45  Bang == 33

Space(x) == x \in (9..13) \cup (28..32) \cup {133, 160}

-----------------------------------------------------------------------------
(* Lines *)

RECURSIVE Strip(_)
Strip(line) ==
    IF line = << >> THEN line
    ELSE IF Space(line[1]) THEN Strip(Tail(line))
    ELSE IF Space(line[Len(line)]) THEN Strip(SubSeq(line, 1, Len(line) - 1))
    ELSE line

\* Whether a line is a pattern.
IsPattern(line) == LET s == Strip(line) IN s # << >> /\ s[1] # Hash

\* The parts between slashes.
RECURSIVE Split(_)
Split(s) ==
    IF \A i \in DOMAIN s : s[i] # Slash THEN <<s>>
    ELSE LET i == CHOOSE j \in DOMAIN s : s[j] = Slash /\ \A k \in 1..(j - 1) : s[k] # Slash
         IN  <<SubSeq(s, 1, i - 1)>> \o Split(SubSeq(s, i + 1, Len(s)))

Anywhere == <<Star, Star>>

\* A pattern is [parts, dir]: what the names of a path match, one after the
\* other, and whether only directories match.
Parse(line) ==
    LET s     == Strip(line)
        parts == Split(s)
        real  == SelectSeq(parts, LAMBDA x : x # << >>)
    IN  [ parts |-> IF s[1] = Slash THEN real ELSE <<Anywhere>> \o real,
          dir   |-> s[Len(s)] = Slash ]

-----------------------------------------------------------------------------
(* Names *)

\* The position of the bracket that closes the one at i, or 0.
Closing(p, i) ==
    LET first == IF i < Len(p) /\ p[i + 1] = Bang THEN i + 2 ELSE i + 1
        found == {j \in (first + 1)..Len(p) : p[j] = Close}
    IN  IF found = {} THEN 0 ELSE CHOOSE j \in found : \A k \in found : j <= k

\* Whether a character is one of those from i to j of a pattern.
RECURSIVE OneOf(_, _, _, _)
OneOf(p, i, j, x) ==
    IF i > j THEN FALSE
    ELSE IF i + 2 <= j /\ p[i + 1] = Dash
    THEN (p[i] <= x /\ x <= p[i + 2]) \/ OneOf(p, i + 3, j, x)
    ELSE p[i] = x \/ OneOf(p, i + 1, j, x)

InBrackets(p, i, j, x) ==
    IF p[i + 1] = Bang THEN ~OneOf(p, i + 2, j - 1, x)
    ELSE OneOf(p, i + 1, j - 1, x)

\* Whether what follows position i of a pattern matches what follows position j
\* of a name.
RECURSIVE From(_, _, _, _)
From(p, i, n, j) ==
    IF i > Len(p) THEN j > Len(n)
    ELSE IF p[i] = Star
    THEN From(p, i + 1, n, j) \/ (j <= Len(n) /\ From(p, i, n, j + 1))
    ELSE IF j > Len(n) THEN FALSE
    ELSE IF p[i] = Question THEN From(p, i + 1, n, j + 1)
    ELSE IF p[i] = Open /\ Closing(p, i) > 0
    THEN InBrackets(p, i, Closing(p, i), n[j]) /\ From(p, Closing(p, i) + 1, n, j + 1)
    ELSE p[i] = n[j] /\ From(p, i + 1, n, j + 1)

Hidden(n) == n[1] = Dot

Name(p, n) == From(p, 1, n, 1) /\ (Hidden(n) => p[1] = Dot)

-----------------------------------------------------------------------------
(* Paths *)

RECURSIVE Path(_, _, _, _, _)
Path(parts, i, path, j, isdir) ==
    IF i > Len(parts) THEN j > Len(path)
    ELSE IF parts[i] = Anywhere
    THEN \/ Path(parts, i + 1, path, j, isdir)
            \* Nothing is in what isn't a directory.
            /\ (i = Len(parts) /\ j > Len(path) => isdir)
         \/ (j <= Len(path) /\ ~Hidden(path[j])
             /\ (IF i = Len(parts) /\ j = Len(path) THEN TRUE
                 ELSE Path(parts, i, path, j + 1, isdir)))
    ELSE j <= Len(path) /\ Name(parts[i], path[j])
         /\ Path(parts, i + 1, path, j + 1, isdir)

\* Whether a path matches a pattern.
Matches(p, path, isdir) == (p.dir => isdir) /\ Path(p.parts, 1, path, 1, isdir)

\* The paths that are excluded by lines: those that match and everything in
\* directories that do.
Excluded(lines, tree) ==
    LET patterns == {Parse(l) : l \in {x \in lines : IsPattern(x)}}
        hit(path, isdir) == \E p \in patterns : Matches(p, path, isdir)
        tops == {p \in (DOMAIN tree) : hit(p, tree[p])}
    IN  IF hit(<< >>, TRUE) THEN DOMAIN tree
        ELSE {p \in DOMAIN tree :
                \E n \in 1..Len(p) : SubSeq(p, 1, n) \in tops}
=============================================================================
