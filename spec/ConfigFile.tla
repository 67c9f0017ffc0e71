----------------------------- MODULE ConfigFile -----------------------------
(* The text of a configuration file and what it means: a sequence of          *)
(* directives [s |-> "+" or "-", t |-> directive, a |-> arguments,            *)
(* ns |-> path of a namespace directive], or an error.                        *)
EXTENDS Text

At(s, i) == SubSeq(s, i, i)
(* position of the first of the characters S at or after i, 0 if there is none *)
RECURSIVE Find(_, _, _)
Find(s, S, i) == IF i > Len(s) THEN 0 ELSE IF At(s, i) \in S THEN i ELSE Find(s, S, i + 1)
From(s, i) == IF i > Len(s) THEN "" ELSE SubSeq(s, i, Len(s))
Before(s, i) == IF i <= 1 THEN "" ELSE SubSeq(s, 1, i - 1)

(* lines of a text; what follows the last line end is a line unless it is empty *)
RECURSIVE LinesOf(_)
LinesOf(s) == IF s = "" THEN <<>> ELSE LET n == Find(s, {"\n"}, 1) IN IF n = 0 THEN <<s>> ELSE <<Before(s, n)>> \o LinesOf(From(s, n + 1))

RECURSIVE Without(_, _)
Without(s, c) == IF s = "" THEN "" ELSE LET n == Find(s, {c}, 1) IN IF n = 0 THEN s ELSE Before(s, n) \o Without(From(s, n + 1), c)

RECURSIVE LTrim(_)
LTrim(s) == IF s # "" /\ At(s, 1) \in {" ", "\t"} THEN LTrim(From(s, 2)) ELSE s
RECURSIVE RTrim(_)
RTrim(s) == IF s # "" /\ At(s, Len(s)) \in {" ", "\t"} THEN RTrim(Before(s, Len(s))) ELSE s
Trim(s) == LTrim(RTrim(s))

(* the parts of a qualified name *)
RECURSIVE FindColons(_, _)
FindColons(s, i) == IF i >= Len(s) THEN 0 ELSE IF SubSeq(s, i, i + 1) = "::" THEN i ELSE FindColons(s, i + 1)
RECURSIVE PathOf(_)
PathOf(s) == IF s = "" THEN <<>> ELSE LET n == FindColons(s, 1) IN IF n = 0 THEN <<s>> ELSE <<Before(s, n)>> \o PathOf(From(s, n + 2))

Policies == {"default_" \o k \o "_" \o f \o "_return_value_policy" : k \in {"static", "member"}, f \in {"pointer", "lvalue_reference", "rvalue_reference"}}
(* directives with one name, in which blanks mean nothing *)
OneName == {"namespace", "class", "enum", "function", "field", "python_builtin", "include", "buffer_protocol", "module_local_namespace", "smart_holder",
           "custom_shared", "pybind11_include_file", "default_call_guard", "prefix_for_static_member_functions"} \cup Policies
(* directives that attach something to a name *)
Trimmed == {"binder", "add_on_binder", "binder_for_namespace", "add_on_binder_for_namespace"}
TwoNames == Trimmed \cup {"include_for_class", "include_for_namespace", "trampoline_member_function_binder"}
PlusOnly == {"include_for_class", "include_for_namespace"}

Nothing == [k |-> "nothing"]
Bad(why) == [k |-> "bad", why |-> why]
Dir(s, t, a) == [k |-> "dir", d |-> [s |-> s, t |-> t, a |-> a, ns |-> IF t = "namespace" THEN PathOf(a[1]) ELSE <<>>]]

(* one line, without its line end *)
ReadLine(raw) ==
  IF raw = "" \/ At(raw, 1) = "#" THEN Nothing
  ELSE LET l == IF At(raw, Len(raw)) = "\r" THEN Before(raw, Len(raw)) ELSE raw IN
       IF l = "" THEN Nothing
       ELSE IF At(l, 1) \notin {"+", "-"} THEN Bad("no sign")
       ELSE LET sp == Find(l, {" "}, 1) IN
            IF sp = 0 THEN Bad("no argument")
            ELSE LET s == At(l, 1) t == SubSeq(l, 2, sp - 1) arg == From(l, sp + 1) IN
                 CASE t \in OneName -> Dir(s, t, <<Without(arg, " ")>>)
                   [] t \in TwoNames /\ s = "-" -> IF t \in PlusOnly THEN Bad("only + makes sense") ELSE Nothing
                   [] t \in TwoNames /\ s = "+" ->
                        LET c == Find(arg, {" ", "\t"}, 1) IN
                        IF c = 0 THEN Bad("second argument missing")
                        ELSE Dir(s, t, <<Before(arg, c), IF t \in Trimmed THEN Trim(From(arg, c + 1)) ELSE From(arg, c + 1)>>)
                   [] OTHER -> Bad("unknown directive")

Read(text) ==
  LET r == TLCEval(Map(LinesOf(text), ReadLine))
      bad == {i \in DOMAIN r : r[i].k = "bad"}
  IN [bad |-> IF bad = {} THEN "" ELSE r[MinOf(bad)].why,
      dirs |-> LET q == SelectSeq(r, LAMBDA x : x.k = "dir") IN TLCEval([i \in DOMAIN q |-> q[i].d])]
=============================================================================
