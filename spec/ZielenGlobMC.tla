----------------------------- MODULE ZielenGlobMC -----------------------------
(***************************************************************************)
(* Explores the language of exclude patterns: every pattern up to some      *)
(* length, and what it excludes in a tree.                                  *)
(***************************************************************************)
EXTENDS ZielenGlob, TLC, TLCExt, Json, IOUtils

Options == JsonDeserialize(IOEnv.OPTIONS)

Size == Options.steps

A == 97  B == 98

\* The paths of a tree and whether they are directories.
Tree ==
    LET dirs  == { <<<<A>>>>, <<<<A>>, <<B>>>>, <<<<Dot, A>>>>, <<<<B, A>>>> }
        files == { <<<<B>>>>, <<<<Star>>>>, <<<<Dash>>>>, <<<<Dot, B>>>>,
                   <<<<A, B>>>>, <<<<Open, A, Close>>>>,
                   <<<<A>>, <<A>>>>, <<<<A>>, <<Dot, A>>>>, <<<<A>>, <<A, B>>>>,
                   <<<<A>>, <<B>>, <<A>>>>, <<<<A>>, <<B>>, <<B>>>>,
                   <<<<Dot, A>>, <<A>>>>, <<<<Dot, A>>, <<B>>>>,
                   <<<<B, A>>, <<Dot, B>>>>, <<<<B, A>>, <<Question>>>> }
    IN  [p \in dirs \cup files |-> p \in dirs]

Alphabet == {A, B, Star, Question, Slash, Dot, Open, Close, Dash, Bang, Hash, 32}

VARIABLES line

-----------------------------------------------------------------------------
(* What is specified: brackets enclose something, a double asterisk stands   *)
(* on its own, and no part of a pattern is empty or refers to a directory.   *)

\* Brackets may be one after another, but not in one another.
RECURSIVE Brackets(_, _)
Brackets(s, i) ==
    IF i > Len(s) THEN TRUE
    ELSE IF s[i] = Close THEN FALSE
    ELSE IF s[i] # Open THEN Brackets(s, i + 1)
    ELSE \E j \in (i + 2)..Len(s) :
            /\ s[j] = Close
            /\ \A k \in (i + 2)..(j - 1) : s[k] # Close
            /\ s[i + 1] # Close
            /\ s[i + 1] = Bang => j > i + 2
            \* A range has two ends.
            /\ \A k \in (i + 1)..(j - 1) : s[k] = Dash =>
                 \/ k = i + 1 \/ k = j - 1
                 \/ s[k - 1] \in {A, B} /\ s[k + 1] \in {A, B} /\ s[k - 1] <= s[k + 1]
            /\ Brackets(s, j + 1)

Part(p) ==
    /\ p \notin {<<Dot>>, <<Dot, Dot>>}
    /\ p = Anywhere \/ \A i \in 1..(Len(p) - 1) : p[i] # Star \/ p[i + 1] # Star
    /\ Brackets(p, 1)

WellFormed(s) ==
    \/ ~IsPattern(s)
    \/ LET t     == Strip(s)
           parts == Split(t)
       IN  \A i \in DOMAIN parts :
             IF parts[i] = << >> THEN i = 1 \/ i = Len(parts) ELSE Part(parts[i])

-----------------------------------------------------------------------------
(* Theorems about the language. *)
Hit(l) == Excluded({l}, Tree)
Theorems ==
    ~WellFormed(line) \/ ~IsPattern(line) \/
    LET text == Strip(line)
        p    == Parse(line)
        hit  == Hit(line)
        tops == {q \in DOMAIN Tree : Matches(p, q, Tree[q])}
        has(S) == \E i \in DOMAIN line : line[i] \in S
    IN
    \* Names that begin with a dot only match what has a dot.
    /\ ~has({Dot}) => \A q \in tops : \A i \in DOMAIN q : ~Hidden(q[i])
    \* What is in an excluded directory is excluded, and nothing else is.
    /\ hit = DOMAIN Tree \/ hit = {q \in DOMAIN Tree :
                                 \E n \in 1..Len(q) : SubSeq(q, 1, n) \in tops}
    \* A pattern without any special character is the name of a file.
    /\ ~has({Star, Question, Open, Slash}) => \A q \in tops : q[Len(q)] = text
    /\ text[1] # Slash =>
         \* A pattern that doesn't start with a slash is one that starts with a
         \* double asterisk.
         /\ hit = Hit(<<Slash, Star, Star, Slash>> \o text)
         \* Less is excluded with a slash at the end, or one at the beginning.
         /\ Hit(<<Slash>> \o text) \subseteq hit
         /\ Hit(text \o <<Slash>>) \subseteq hit

Init == line = << >>

\* A prefix of what is well-formed may not be.
Next == /\ Len(line) < Size
        /\ \E x \in Alphabet : line' = Append(line, x)

\* The line is printed along with what it excludes, so that the choice of what
\* to play can favour patterns that exclude something, but not all.
Case ==
    IF ~WellFormed(line) \/ line = << >> THEN TRUE
    ELSE PrintT(<<"CASE", ToJson(<<Cardinality(Hit(line)), line>>)>>)

Spec == Init /\ [][Next]_line
=============================================================================
