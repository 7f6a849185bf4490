#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the statements stay in one readable place)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],
        state=[dict(name=a,meaning=b,where=c) for a,b,c in (state or [])],observe_at=observe or [],hook_needed=None)))
S="src/include/signal_tl/signal.hpp"; SC="src/core/signal.cc"; MC="src/robust_semantics/minmax.cc"; CR="src/robust_semantics/classic_robustness.cc"
A="src/include/signal_tl/ast.hpp"; AC="src/core/ast.cc"; PA="src/parser/actions.hpp"; PG="src/parser/grammar.hpp"; PP="src/parser/parser.cc"; F="src/include/signal_tl/fmt.hpp"
WT="The only stable test of the signal code evaluates one formula on three fixed traces and checks that nothing is thrown; it never looks at a value."
p("C01","Signals have strictly increasing time stamps",
  "Every signal has strictly increasing time stamps, however it was built (sample by sample, from a sequence, from points and times, by copying). Appending a sample that is not later than the last one, or giving different numbers of points and times, is rejected with invalid_argument. A rejected append leaves the signal exactly as it was, and an accepted one adds exactly that time and value at the end and changes no earlier time or value.",
  ["inputs","histories"],"all sequences of appends and constructions, all sample times and values",
  WT,[S,SC],[("Signal::push_back",SC),("Signal constructors",S)],[("samples","the time stamped values of the signal","Signal::samples")])
p("C02","A signal is the linear interpolation of its samples",
  "Between two neighbouring samples a signal takes exactly the values on the straight line through them, and from the last sample on it is constant. This holds after every construction, append and copy; in particular a stretch between equal values, even infinite ones, has slope 0. Interpolating from the sample before a time, or asking where two such lines intersect, gives the value of that line and the time at which both have the same value.",
  ["inputs","histories"],"all sequences of appends, all sample values",
  WT,[S,SC],[("slope stored by push_back",SC),("Sample::interpolate, Sample::time_intersect, Sample::area",S)],[("derivative","slope from this sample to the next","Sample::derivative")])
p("C03","Looking up a signal at a time",
  "The value of a signal at a time within its range is the linear interpolation of its samples (the sample itself at a sample time), and asking outside of the range (or in an empty signal) is rejected with invalid_argument. Iterating from a time starts at the first sample at or after it, iterating up to a time ends just after the last sample at or before it, for times before, in and after the signal. Begin time, end time, size and indexed access agree with the samples.",
  ["inputs"],"all signals and all times",
  WT,[S,SC],[("Signal::at",SC),("Signal::begin_at, Signal::end_at, begin_time, end_time, front, back, at_idx",S)])
p("C04","Synchronizing two signals",
  "Synchronizing two signals gives two signals with identical time stamps: exactly the sample times of either signal that lie in the time range common to both, from the later of the two begin times to the earlier of the two end times. Each of the two results has the same value as its original at every time in that range. Signals without a common range give two empty signals; nothing is thrown.",
  ["inputs"],"all pairs of signals, including different sampling, different ranges and no overlap",
  WT,[SC],[("synchronize",SC)])
p("C05","Simplifying a signal does not change it",
  "A simplified signal starts and ends at the same times as the original and has the same value at every time in between. Every sample of it is a sample of the original.",
  ["inputs"],"all signals and all times in their range",WT,[SC],[("Signal::simplify",SC)])
p("C06","Resizing and shifting a signal",
  "Resizing to a range (begin before end) gives a signal that starts and ends exactly at the bounds, has the value of the original at every time of the range where the original is defined, and the fill value at a bound where it is not. Shifting by dt gives the same values at times moved by dt. Resizing and shifting in one step equals resizing and then shifting.",
  ["inputs"],"all non-empty signals, all ranges, fill values and shifts",WT,[SC],[("Signal::resize, Signal::shift, Signal::resize_shift",SC)])
p("C07","Robustness of a predicate",
  "The robustness of x > c and x >= c is x - c, and that of x < c and x <= c is c - x, at exactly the sample times of the signal x. A predicate over a name that is not in the trace is rejected with out_of_range; signals with other names do not matter.",
  ["inputs"],"all traces, all four comparisons, all constants",WT,[CR,AC],[("evaluation of predicates",CR),("comparison operators that build predicates",AC)])
p("C08","Robustness of not, and, or",
  "The robustness of a negation is minus that of its operand at every time. The robustness of a conjunction (disjunction) of any number of operands is the minimum (maximum) of those of all operands at every time of the range common to all of them, also between samples and where the operands cross.",
  ["inputs"],"all operand signals, all numbers of operands, all times",WT,[CR,MC,SC],[("element-wise minimum and maximum",MC),("evaluation of Not, And, Or",CR)])
p("C09","Robustness of unbounded always and eventually",
  "The robustness of an unbounded always (eventually) at each sample time of its operand is the minimum (maximum) of the operand from that time to the end of the trace. It is sampled at exactly the sample times of the operand.",
  ["inputs"],"all operand signals",WT,[MC,CR],[("suffix minimum and maximum",MC),("evaluation of Always, Eventually",CR)])
p("C10","Robustness of bounded always and eventually",
  "The robustness of an always (eventually) over [a,b] at each sample time t of its operand is the minimum (maximum) of the operand over [t+a, t+b], where the operand keeps its last value after its end. An operator has bounds exactly if its interval is not [0,inf), and the bounds used are the ones it was given, whether integers or not.",
  ["inputs"],"all operand signals and all intervals with 0 <= a < b",WT,[MC,CR,A],[("windowed minimum and maximum",MC),("Interval::has_value, Interval::as_double",A)])
p("C11","Robustness of until",
  "The robustness of p until q at each common sample time t is the largest over all later-or-equal sample times t' of the minimum of q at t' and of p at all sample times from t up to but not including t'. A bounded until is refused with not_implemented_error, never evaluated as something else.",
  ["inputs"],"all pairs of operand signals",WT,[CR],[("compute_until, evaluation of Until",CR)])
p("C12","Robustness is compositional over all formulas",
  "The robustness of a formula of any shape and depth is that of its outermost operator applied to the robustness of its operands, evaluated on the same trace. A Boolean constant has robustness +infinity or -infinity from the first begin time to the last end time of the signals of the trace. Evaluation fails only for a missing signal, an empty trace with constants, or a bounded until.",
  ["inputs","programs"],"all formulas and all traces",WT,[CR,MC],[("compute_robustness, RobustnessOp",CR)])
p("C13","Rounding never disturbs time stamps",
  "With IEEE doubles, no rounding of any interpolated value or intersection time makes the evaluation of a formula throw or put time stamps out of order. The time stamps of synchronized, negated, predicate and temporal results are copied from the operands without rounding, and every intersection that is added lies strictly between its neighbours.",
  ["inputs"],"all double values of times and values, all roundings",
  "The test named after this checks three fixed traces.",[MC,SC,CR],[("guards on the intersection time",MC),("push_back",SC)])
p("C14","No access outside of a signal",
  "No operation on signals, traces or formulas reads or writes outside of the samples, dereferences a past-the-end position or a null pointer, or uses a value left behind by a move, for any signals (also empty ones or ones that do not overlap, except that front() and back() require a non-empty signal). Every operation ends.",
  ["inputs"],"all signals, traces and formulas without null pointers",WT,[S,SC,MC,CR],[("iterator loops",MC),("lookups",SC)])
p("C15","Formula operators keep the Boolean meaning",
  "For all formulas, building ~, &, |, Not, And, Or, Implies, Xor or Iff of them gives a formula with that Boolean meaning of its operands, also when operands are constants or already conjunctions or disjunctions. None of these throws on valid formulas, and none changes its operands.",
  ["inputs","programs"],"all operand formulas and all valuations of their atoms",
  "No test builds formulas other than a few fixed ones.",[AC,A],[("operator~, operator&, operator|, AndHelper, OrHelper, Not, And, Or, Implies, Xor, Iff",AC)])
p("C16","Only well-formed formulas can be built",
  "A conjunction or disjunction with fewer than two operands and an interval without 0 <= a < b are rejected with invalid_argument, and everything else is accepted. A formula holds exactly the operands, in order, the comparison, constant, name and interval it was built with; operators without an interval have [0,inf).",
  ["inputs"],"all operand lists, all interval bounds including NaN",
  "No test builds an ill-formed formula or looks into one.",[A,AC],[("And, Or, Interval constructors",A),("Always, Eventually, Until, Predicate, Const factories",AC)])
p("C17","Evaluation never modifies its inputs",
  "Evaluating, synchronizing, simplifying, resizing and shifting leave the given signals, traces and formulas unchanged; combining formulas leaves the operands unchanged, so that a formula or signal can be used any number of times.",
  ["inputs","histories"],"all inputs of all operations",WT,[SC,MC,CR,AC],[("results are built in objects of their own",SC),("copied operand lists",AC)])
p("C18","Parsed predicates mean what is written",
  "(op x c) parses to the predicate x op c, and (op c x) to the predicate with the comparison turned around, for all four comparisons, all names and integer or decimal constants. A constant too large for a long or a double is rejected. A name or constant never carries over from another predicate.",
  ["inputs","programs"],"all specifications",
  "The tests only check that a few files and strings parse, never what they parse to.",[PA,PG],[("actions for predicates, literals and identifiers",PA),("PredicateTerm",PG)])
p("C19","Parsed operators have their own operands",
  "Each operator keyword in a specification gives that operator applied to exactly the terms between its parentheses, in the order written: one for not, always, eventually, two for implies, iff, xor, until, at least two for and, or. Any other number of operands is rejected, and terms in parentheses of their own mean the same term; no operand is lost, repeated or passed to another operator, however deep the nesting.",
  ["inputs","programs"],"all specifications, all nestings",
  "The tests only check that a few files and strings parse, never what they parse to.",[PA,PG],[("actions for terms and operators",PA),("Term and operator rules",PG)])
p("C20","Names in specifications",
  "A name used as a term stands for the formula defined under it earlier in the specification, and a name that was not defined before is rejected. Defining the same formula or asserting the same name twice is rejected. The result contains every definition and every assertion, under its own name, and nothing else.",
  ["inputs","programs"],"all specifications",
  "The tests only check that a few files and strings parse, never what they parse to.",[PA,PP,PG],[("actions for Term, DefineFormula, Assertion",PA),("handing the tables to the Specification",PP)])
p("C21","Formulas and signals are printed faithfully",
  "The text of a formula shows its own operator, every operand in order and, for a temporal operator with bounds, both bounds; a temporal operator without bounds is shown without them. A predicate is shown with its name, its comparison and its constant, a sample with its time and value.",
  ["inputs","programs"],"all formulas and signals","No test prints anything.",[F],[("fmt::formatter specializations, operator<<",F)])
p("C22","The Python bindings expose the library unchanged",
  "Every attribute and function of the Python module gives what the C++ member or function of that name gives.",
  ["inputs"],"all objects and arguments","The bindings are not tested.",["python_bindings/pyast.cc","python_bindings/pysignal.cc"],[("pybind11 bindings","python_bindings")])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
