#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (development helper; no check reads it)."""
import json,os
V=os.path.dirname(os.path.abspath(__file__))
P=[]; NA=[]
def prop(id,title,statement,over,text,why,files,mech,observe=(),level_note='',technique='',na=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if observe: d['anchors']['observe_at']=list(observe)
    assert len(title)<=80,title; assert statement.count('. ')<=2,(id,statement)
    P.append(d)
    if na: NA.append(dict(property=id,reason=na))
    else: d['_note']=level_note; d['_tech']=technique
TEST='The existing tests evaluate a few fixed traces of one signal (values asserted only for >, <, or, always, eventually, implies, until and the no-data bounds at one trace each). '
SE='symbolic execution of the LLVM IR of /repo/src (every double a solver term), reference semantics as an SMT formula, Z3 decides each assertion per path'
prop('C01','A predicate has as robustness the signed margin of its two sides',
 'For every trace and every evaluation time, the robustness of a predicate "left > right" is left minus right, and of "left < right" right minus left, with both sides evaluated at that time from the signal values (held between samples under previous interpolation, linearly interpolated under linear interpolation for sums, differences and constant multiples). Sums, differences, products, absolute values, numeric constants and parameters have their usual arithmetic meaning at every instant of the trace, including its last sample and whatever the two operands are.',
 ['inputs','programs'],'all sample values and times, all evaluation times, all constants, both interpolations',TEST+'No test asserts a value of an arithmetic expression over signals.',
 ['src/stl_atom.cpp','src/signal_expr.cpp','src/signal.cpp'],[('atom robustness','src/stl_atom.cpp stl_atom::compute_robustness'),('signal windowing','src/stl_atom.cpp signal_transducer::compute_robustness'),('signal arithmetic','src/signal_expr.cpp'),('resize / append','src/signal.cpp')],['get_online_rob','STLMonitor::eval_rob'],
 'exhaustive over paths within bounds: traces of <=4 symbolic samples (12 with 2 symbolic), 25 expression shapes',SE)
prop('C02','Boolean connectives combine robustness pointwise',
 'At every evaluation time, the robustness of a conjunction is the minimum, of a disjunction the maximum, of a negation the opposite, and of an implication the maximum of the negated premise and the conclusion, of the robustness of its operands at that time. This holds for nested connectives, operands over different signals, both interpolations (including crossings between samples and the very last instant) and for the whole robustness signal, not only its first value.',
 ['inputs','programs'],'all traces, evaluation times and operand pairs',TEST+'"and", "not" and nested connectives have no asserted values.',
 ['src/transducer.cpp','src/robustness.cpp'],[('and/or/not/implies of signals','src/robustness.cpp'),('connective transducers','src/transducer.cpp')],['get_online_rob','STLMonitor::get_signal'],'traces of <=3-4 symbolic samples, nesting depth <=3',SE)
prop('C03','Eventually/always are the max/min over exactly the closed window',
 'On a trace covering the window, the robustness at time t of "eventually in [a,b]" is the largest, and of "always in [a,b]" the smallest, value its operand takes anywhere in [t+a, t+b], both ends included and nothing outside counted. This holds for every operand without temporal operators, every 0<=a<=b (including points and windows that begin or end between, before or exactly on samples) and both interpolations.',
 ['inputs','programs'],'all traces, windows and evaluation times',TEST+'Window ends between samples, symbolic windows and long monotone runs (where the sliding-window algorithm evicts) are not sampled.',
 ['src/interval_transducer.cpp','src/robustness.cpp','src/interval.cpp'],[('sliding window extremum','src/robustness.cpp compute_timed_eventually / compute_timed_globally'),('window selection','src/interval_transducer.cpp ev_transducer, alw_transducer')],['get_online_rob'],'<=6 symbolic samples, or up to 20 samples of which 3 symbolic',SE)
prop('C04','Until follows the STL sup-inf semantics over its whole window',
 'On a trace covering the window, the robustness at t of "p until in [a,b] q" is the largest, over instants u in [t+a, t+b], of the minimum of q at u and the smallest value of p on [t, u]. This holds for every 0<=a<=b, every pair of signals, and both interpolations.',
 ['inputs','programs'],'all traces of two signals, windows and evaluation times',TEST+'Until is asserted on one trace with one window.',
 ['src/interval_transducer.cpp','src/robustness.cpp'],[('until on signals','src/robustness.cpp compute_until / compute_timed_until'),('until transducer','src/interval_transducer.cpp until_transducer')],['get_online_rob'],'<=3 symbolic samples per signal (4 with listed times), longer traces partly symbolic',SE)
prop('C05','Nested temporal formulas compose to the STL semantics at any depth',
 'On a trace that covers the total time span of a formula, the robustness of nested temporal operators (eventually, always and until inside each other and mixed with boolean connectives) equals the value given by the STL semantics applied recursively. In particular each operand is evaluated over the whole time span its parents need.',
 ['inputs','programs'],'all traces and evaluation times for nested formulas',TEST+'Nested formulas are printed or plotted, not asserted.',
 ['src/interval_transducer.cpp','src/transducer.cpp','src/robustness.cpp'],[('horizon propagation','src/transducer.cpp, src/interval_transducer.cpp set_horizon'),('window operators','src/robustness.cpp')],['get_online_rob'],'nesting depth <=3, <=4 symbolic samples',SE)
prop('C06','Online bounds always enclose the final robustness',
 'At every moment while samples arrive, the lower bound reported for a formula is at most, and the upper bound at least, the robustness the formula will have once the trace is complete, whatever the remaining samples turn out to be. This holds for predicates, boolean connectives, temporal operators and their nesting, for drivers and monitors.',
 ['inputs','histories','programs'],'all traces (values of magnitude below BigM), every prefix, every evaluation time',TEST+'Partial traces are asserted only for the no-data case.',
 ['src/interval_transducer.cpp','src/transducer.cpp','src/robustness.cpp'],[('lower/upper robustness of each operator','src/transducer.cpp, src/interval_transducer.cpp compute_lower_rob / compute_upper_rob')],['get_online_rob','get_lower_rob/get_upper_rob'],'every prefix of traces of <=5 symbolic samples',SE)
prop('C07','With complete data the lower and upper bounds equal the robustness',
 'Once the trace covers everything a formula refers to from the evaluation time on, the lower bound, the upper bound and the robustness reported for it are one and the same number. This holds for every formula, trace and evaluation time.',
 ['inputs','programs'],'all complete traces',TEST+'Bounds on complete traces are asserted for a handful of one-operator formulas.',
 ['src/interval_transducer.cpp','src/transducer.cpp'],[('lower/upper robustness of each operator','src/transducer.cpp, src/interval_transducer.cpp')],['get_online_rob','get_lower_rob/get_upper_rob'],'traces of <=5 symbolic samples',SE)
prop('C08','New samples only ever tighten the online bounds',
 'Appending a sample to a trace never lowers the lower bound and never raises the upper bound of any formula. The lower bound never exceeds the upper bound, and both stay within plus/minus BigM as long as the signals do.',
 ['inputs','histories'],'all traces and all prefixes',TEST+'No test compares bounds before and after a sample.',
 ['src/interval_transducer.cpp','src/transducer.cpp'],[('lower/upper robustness of each operator','src/transducer.cpp, src/interval_transducer.cpp')],['get_online_rob','get_lower_rob/get_upper_rob'],'every pair of consecutive prefixes of traces of <=5 symbolic samples',SE)
prop('C09','Results depend only on the logical state, not on the call history',
 'Whatever calls came before (other evaluations, at other times, of other formulas, or with other parameters, interpolation or semantics; samples added one at a time between evaluations; data discarded), a driver or monitor returns the same robustness and bounds as a fresh one given the same formula, samples, parameters and settings. Evaluating twice gives the same answer.',
 ['histories','inputs'],'all call sequences up to the bound, all sample values',TEST+'Tests run one fixed sequence per object.',
 ['src/stl_driver.cpp','src/stl_monitor.cpp','src/transducer.cpp'],[('reset before evaluation','src/stl_driver.cpp get_online_rob, src/stl_monitor.cpp eval_rob'),('reset of each operator','include/transducer.h')],['get_online_rob','eval_rob'],'all histories of <=5 operations over 5 kinds, <=3 samples',SE)
prop('C10','Copies, moves and monitors are equal at birth and independent afterwards',
 'A copied, assigned, or moved-to driver or monitor, and a monitor obtained from a driver, has exactly the data, parameters, settings and formulas of its origin at that moment. From then on, samples, parameters and settings given to one never affect the results of the other, and destroying one leaves the other fully usable.',
 ['histories','inputs'],'all interleavings of operations on two objects up to the bound',TEST+'No test copies or moves an object and keeps using both.',
 ['include/stl_monitor.h','src/stl_driver.cpp','src/transducer.cpp'],[('copy / move of driver and monitor','src/stl_driver.cpp, include/stl_monitor.h'),('cloning of formulas','include/transducer.h clone')],['get_online_rob','eval_rob'],'all histories of <=5 operations over <=11 kinds',SE)
prop('C11','A sample is stored iff well-formed and strictly later than the last',
 'Adding a sample to a driver or monitor succeeds exactly when it has one time and one value per declared signal and its time is strictly greater than that of the last stored sample; otherwise an invalid_argument exception is raised. Rejected samples leave the stored data and all later results unchanged, and accepted samples are stored unmodified in order.',
 ['inputs','histories'],'all sequences of samples of any size and time',TEST+'No test adds an ill-formed or late sample.',
 ['src/stl_driver.cpp','src/stl_monitor.cpp'],[('sample admission','src/stl_driver.cpp add_sample, src/stl_monitor.cpp add_sample')],['add_sample'],'sequences of <=4 samples with sizes 0..signals+2',SE)
prop('C12','A formula with parameters means the formula with their current values',
 'At every evaluation, a parameter occurring in a predicate or as an interval end stands for its current value: the declared one, or the last one set on that driver or monitor, also for formulas that were evaluated before and for every operator of the formula. Setting a parameter on a driver does not change existing monitors nor the converse; unknown parameters are rejected by monitors and ignored by drivers.',
 ['inputs','histories','programs'],'all parameter values, before and after changes',TEST+'One notebook changes one predicate parameter; interval parameters are never changed.',
 ['src/stl_driver.cpp','include/stl_monitor.h','src/interval_transducer.cpp','src/interval.cpp','src/stl_atom.cpp'],[('parameter lookup','src/stl_atom.cpp constant_transducer, src/interval_transducer.cpp'),('set_param','src/stl_driver.cpp, include/stl_monitor.h')],['set_param','get_online_rob','eval_rob'],'all values of up to 3 parameters, <=3-4 samples',SE)
prop('C13','Time robustness is the signed time since/until the truth value changes',
 'Under the left (right) time semantics, a predicate evaluated over a window has, at every instant where it is decided strictly before the window\'s end, as value the time since it last changed truth value (until it next changes) inside the window, counted positive while it is true and negative while it is false. For composite formulas a clearly positive time robustness implies that the formula is satisfied and a clearly negative one that it is violated, and switching back to the space semantics restores the space robustness.',
 ['inputs','configurations'],'all traces and windows, both time semantics and interpolations',TEST+'Time robustness is not asserted anywhere.',
 ['src/robustness.cpp','src/stl_atom.cpp'],[('boolean / left / right time signals','src/robustness.cpp compute_boolean, compute_left_time_rob, compute_right_time_rob'),('use in predicates','src/stl_atom.cpp')],['set_semantics','eval_rob','get_signal'],'<=5 symbolic samples; values may be zero at the samples for the signal functions',SE)
prop('C14','Every accepted spelling of a formula denotes the documented formula',
 'The documented syntax (signal and parameter declarations, comments, symbolic and word spellings of every operator, interval notations, named formulas and references to them, arithmetic with the usual precedence and left associativity, parentheses) is accepted and evaluates to the formula it denotes. Malformed specifications (missing operands, unknown names, unbalanced brackets, misplaced operators) are reported as failure and leave the formulas defined before usable and unchanged.',
 ['programs','inputs'],'the listed texts with every value of the constants in them, on all traces',TEST+'Spelling variants, precedence, comments and failures are not asserted.',
 ['src/stl_parser.ypp','src/stl_parser.cpp','src/stl_scanner.cpp','src/stl_driver.cpp'],[('grammar','src/stl_parser.ypp and the generated src/stl_parser.cpp'),('scanner','src/stl_scanner.lpp and the generated src/stl_scanner.cpp')],['parse_string','get_online_rob'],'69 specification texts with symbolic constants and traces',SE)
prop('C15','No specification text, however malformed, crashes the parser',
 'Whatever bytes are given as a specification, parsing terminates, reports success or failure, and does not corrupt memory.',
 ['programs'],'all strings','Tests parse a few well-formed texts.',
 ['src/stl_parser.cpp','src/stl_scanner.cpp'],[('generated scanner and parser','src/stl_scanner.cpp, src/stl_parser.cpp')],['parse_string'],na='Needs symbolic characters through the generated flex scanner and bison parser (table-driven, buffers refilled through istream): the bytes index transition tables inside libstdc++/flex code that this engine runs natively (only floating-point values are symbolic), and CBMC has no usable C++ library model for it; enumerating or fuzzing texts would not be this technique. Listed malformed texts are covered, with symbolic traces, under C14 and C16.')
prop('C16','Evaluation is memory-safe and terminates on any data, time or object state',
 'Evaluating an accepted formula at any time or over any window, on any amount of data (none, one sample, data that ends before or begins after the window), under any semantics and interpolation, terminates without invalid memory access or invalid iterator use. The same holds for objects without data, formulas, signals or tests, and for copying, moving, clearing and destroying drivers and monitors in any order.',
 ['inputs','histories','configurations'],'all sample values and times, windows, interleavings up to the bound',TEST+'Tests are not run under sanitizers and never use empty or moved-from objects.',
 ['src/robustness.cpp','src/signal.cpp','src/transducer.cpp','src/interval_transducer.cpp','src/stl_driver.cpp','include/stl_monitor.h'],[('sample iteration','src/robustness.cpp, src/signal.cpp'),('ownership','src/stl_driver.cpp, include/stl_driver.h, include/stl_monitor.h, include/transducer.h')],['get_online_rob','eval_rob'],'45 job families under AddressSanitizer and checked containers; every feasible path within the bounds',SE+'; the explored paths run under AddressSanitizer, libstdc++ checked containers and a watchdog')
prop('C17','Operations on signals are exact at every instant of their time domain',
 'For any two signals, negation, minimum, maximum, implication, untimed eventually/always/until, restriction and extension to an interval, shifting, copying and simplification give a signal that covers exactly the time domain it should, has samples ordered in time, and has the mathematically right value at every instant of it, including crossings between samples and both ends. Appending a sample that is not later than the last one changes nothing; otherwise the signal goes through all appended samples.',
 ['inputs'],'all signals up to the bound, all instants','The tests only look at the value at the evaluation time.',
 ['src/robustness.cpp','src/signal.cpp','include/signal.h'],[('signal operators','src/robustness.cpp'),('append, resize, shift, simplify','src/signal.cpp')],['Signal'],'signals of <=4 symbolic samples, a symbolic instant',SE)
prop('C18','A trace written to a file reads back as the same trace',
 'Writing the data of a driver to a trace file and reading that file gives exactly the same samples, and hence the same robustness. Files separated by spaces or tabs, with indented lines, blank lines or without a final newline are read as the samples they contain, previous data is discarded, and a missing file is reported.',
 ['inputs'],'all sample values and times (in the decimal rounding model), the listed layouts',TEST+'One file is read; none is written and read back.',
 ['src/tools.cpp','src/stl_driver.cpp'],[('reading','src/tools.cpp read_trace, include/stl_driver.h read_trace_file'),('writing','src/stl_driver.cpp dump_trace_file, print_trace')],['dump_trace_file','read_trace_file'],'<=4 symbolic samples (12 with 2 symbolic)',SE+'; decimal output with fewer than 17 digits is modelled as rounding')
prop('C19','Test verdicts and reports reflect the robustness of their formulas',
 'Running a trace test evaluates each of its formulas on the current data with the test\'s local parameters overriding the global ones: it counts exactly the tests with positive robustness, appends the matching positive or negative report in order, and raises the error flag exactly if a positive test is marked as an error. Each run consumes one trace test, tests referred to by name behave like the original, copies, moves and clearing of the driver leave the tests intact or removed respectively, and named formulas are not affected.',
 ['inputs','histories'],'all traces and parameter values, listed test suites','No test asserts a verdict or report.',
 ['src/stl_driver.cpp','include/stl_driver.h','src/stl_parser.ypp'],[('running tests','src/stl_driver.cpp run_tests'),('registering tests','src/stl_driver.cpp add_stl_test, src/stl_parser.ypp')],['run_tests','report'],'one or two trace tests of two tests each, 2-3 symbolic samples',SE)
prop('C20','Without data in the window the bounds are exactly minus/plus BigM',
 'While no sample reaches the beginning of the time span a formula refers to, its lower bound is minus BigM and its upper bound plus BigM. BigM can be changed at any time and only stands for the unknown: with another BigM beyond all signal values, known bounds are unchanged and unknown ones become plus/minus the new BigM.',
 ['inputs','configurations'],'all traces ending before the span, all formulas, all BigM',TEST+'Asserted for eventually/always at fixed values.',
 ['src/interval_transducer.cpp','src/transducer.cpp','include/signal.h'],[('bounds','src/transducer.cpp, src/interval_transducer.cpp compute_lower_rob / compute_upper_rob'),('BigM','include/signal.h')],['get_online_rob','set_BigM'],'BigM any value in [200,20000]',SE)
prop('C21','The robustness signal of a monitor is right at every instant of the window',
 'After evaluating a monitor over a window [t0,t1] covered by the data, its robustness signal covers the window, is ordered in time, and its value at every instant of the window is the robustness of the formula at that instant. The returned robustness is the value at t0, also when the window was set beforehand.',
 ['inputs','programs'],'all traces, windows and instants',TEST+'The signal is only plotted.',
 ['src/stl_monitor.cpp','src/robustness.cpp','src/interval_transducer.cpp','src/transducer.cpp'],[('window evaluation','src/stl_monitor.cpp eval_rob'),('signal operators','src/robustness.cpp')],['STLMonitor::get_signal'],'<=4 symbolic samples, symbolic window and instant',SE)
prop('C22','Robustness is a sound, shift-invariant, monotone and dual margin',
 'Changing every sample by at most d changes robustness and bounds of a formula over plain signals by at most d (so a trace within the robustness margin keeps its verdict), and raising the signals never lowers the robustness of a formula that only asks for signals to be large. Equivalent formulas (dualities, merged or vacuous operators) have equal robustness and bounds, and redundant samples, or a time shift of the trace together with the evaluation time, change nothing.',
 ['inputs','programs'],'all pairs of related traces and formulas','Tests never compare two evaluations.',
 ['src/robustness.cpp','src/interval_transducer.cpp','src/transducer.cpp'],[('min/max structure of all operators','src/robustness.cpp, src/transducer.cpp, src/interval_transducer.cpp')],['get_online_rob'],'pairs of traces of <=3 symbolic samples each',SE)
prop('C23','The Python module gives the same results as the C++ library',
 'Every value obtained through the Python bindings equals the value the C++ interface gives for the same calls.',
 ['histories','inputs'],'all call sequences','The notebooks run single sequences.',
 ['src/pybind11/main.cpp'],[('pybind11 bindings','src/pybind11/main.cpp')],['stlrom'],na='The bindings are pybind11 glue around CPython: deciding them symbolically would need an encoding of the CPython runtime and of pybind11 templates, which no installed tool provides. The C++ interface behind them is covered by the other properties.')
open(V+'/properties.jsonl','w').write(''.join(json.dumps({k:v for k,v in p.items() if k[0]!='_'})+'\n' for p in P))
M=dict(version=1,setup_cmd='python3 check.py setup',checks=[dict(property=p['id'],quick_cmd='python3 check.py %s quick'%p['id'],thorough_cmd='python3 check.py %s thorough'%p['id'],technique=p['_tech'],level='model_checking',level_note=p['_note']) for p in P if '_note' in p],not_applicable=NA)
json.dump(M,open(V+'/MANIFEST.json','w'),indent=1)
print(len(P),'properties',len(M['checks']),'checks')
