----------------------------- MODULE ConfigGen ------------------------------
(* Every way to write one line, and every pair of lines, with its meaning.     *)
(* TLC enumerates them, checks what is claimed about reading below, and        *)
(* prints the files for replay against the real tool (lib/config.py).          *)
EXTENDS Config, Json

CONSTANT Pairs
Args == [namespace |-> <<"cc", "aa::bb">>, class |-> <<"dd::C", "aa::T">>, enum |-> <<"dd::En", "aa::E">>, function |-> <<"dd::fn(int, long)", "aa::func">>, field |-> <<"aa::S::f", "aa::S::f">>,
         python_builtin |-> <<"aa::W", "std::string">>, include |-> <<"<vt_inc1.hpp>", "<sstream>">>, buffer_protocol |-> <<"aa::S", "aa::S">>, module_local_namespace |-> <<"aa", "aa">>,
         smart_holder |-> <<"aa::S", "aa::S">>, custom_shared |-> <<"vth::holder", "vth::holder">>, pybind11_include_file |-> <<"vt_pyb.hpp", "vt_pyb.hpp">>, default_call_guard |-> <<"py::guard", "py::guard">>,
         prefix_for_static_member_functions |-> <<"st_", "st_">>, binder |-> <<"aa::S", "my::f">>, add_on_binder |-> <<"aa::S", "my::f">>, binder_for_namespace |-> <<"aa::bb", "my::f">>,
         add_on_binder_for_namespace |-> <<"aa::bb", "my::f">>, include_for_class |-> <<"aa::S", "<vt_inc2.hpp>">>, include_for_namespace |-> <<"aa::bb", "<vt_inc3.hpp>">>,
         trampoline_member_function_binder |-> <<"aa::S::v", "my::f">>]
Tokens == OneName \cup TwoNames
Arg(t, s) == IF t \in Policies THEN "return_value_policy::move" ELSE IF s = "+" THEN Args[t][1] ELSE Args[t][2]
Odd == {"", "Class", "clas", "classs", "nonsense", "binders", "#", "namespace:"}
Half(x) == Len(x) \div 2
Shaped(x) == {x, " " \o x, x \o " ", "  " \o x \o "  ", SubSeq(x, 1, Half(x)) \o " " \o From(x, Half(x) + 1)}
Whole(t, s) == IF t \in TwoNames
               THEN LET a == Args[t][1] b == Args[t][2] IN {a \o " " \o b, a \o "\t" \o b, a} \cup (IF t \in Trimmed THEN {a \o "  " \o b, a \o "\t " \o b \o " \t"} ELSE {})
               ELSE Shaped(Arg(t, s))
Signs == {"+", "-"}
Ends == {"\n", "\r\n", ""}
Before0 == {"", "# x\n", "\n", "\r\n"}
OneLine == {s \o t \o " " \o x \o e : s \in Signs, t \in {"class"}, x \in {"aa::T"}, e \in Ends}
           \cup UNION {{s \o t \o " " \o x \o e : x \in Whole(t, s), e \in Ends} : s \in Signs, t \in Tokens}
           \cup {s \o t \o " x\n" : s \in Signs, t \in Odd} \cup {s \o t : s \in Signs, t \in Tokens \cup {""}} \cup {s \o t \o "\tx\n" : s \in Signs, t \in Tokens}
           \cup {p \o t \o " " \o Arg(t, "+") \o "\n" : p \in {"", " ", "* ", " +", "\t+", "++", "#", "#+", "# -"}, t \in OneName}
           \cup {p \o "+class dd::C" \o e : p \in Before0, e \in Ends} \cup {"+class dd::C" \o e \o p : p \in Before0, e \in {"\n", "\r\n"}}
           \cup {"", "\n", "\r\n", "\n\n", "#", " ", "\t", " \n", "+", "-\n", "+\r\n"}
Canon(s, t) == s \o t \o " " \o (IF t \in TwoNames THEN Args[t][1] \o " " \o Args[t][2] ELSE Arg(t, s)) \o "\n"
CanonLines == {Canon("+", t) : t \in Tokens} \cup {Canon("-", t) : t \in OneName}
TwoLines == {a \o b : a \in CanonLines, b \in CanonLines}

VARIABLE text
Init == text \in IF Pairs THEN TwoLines ELSE OneLine
Next == UNCHANGED text
R == Read(text)
Plain(d) == d.s \o d.t \o " " \o Join(d.a, " ") \o "\n"
PlainText == Join(Map(R.dirs, Plain), "")

(* writing down what was read and reading it again changes nothing *)
Stable == R.bad = "" => Read(PlainText) = R
(* line ends do not matter *)
EndsAlike == \A e \in {"\n", "\r\n"} : text # "" /\ At(text, Len(text)) \notin {"\n", "\r"} => Read(text \o e) = R
(* a comment or an empty line changes nothing, before or after *)
CommentsMeanNothing == /\ Read("# +class x\n" \o text) = R /\ Read("\n" \o text) = R
                       /\ (text = "" \/ At(text, Len(text)) = "\n" => Read(text \o "#-class x") = R)
(* lines of different directives may be exchanged *)
W(dirs) == [dirs |-> dirs, opt |-> [bind |-> <<>>, skip |-> <<>>]]
Exchange == Pairs => (R.bad = "" /\ Len(R.dirs) = 2 /\ R.dirs[1].t # R.dirs[2].t => Cfg(W(R.dirs)) = Cfg(W(<<R.dirs[2], R.dirs[1]>>)))
Emit == PrintT("@@" \o ToJson([text |-> text, bad |-> R.bad, plain |-> PlainText, dirs |-> R.dirs]))
=============================================================================
