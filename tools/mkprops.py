#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the text of the properties is kept here, one call per property)."""
import json, os
OUT = []


def P(id, title, statement, over, text, why, files, mech, observe=None, hook=None):
    assert len(title) <= 80, title
    OUT.append({'id': id, 'title': title, 'statement': ' '.join(statement.split()),
                'quantifier': {'over': over, 'text': ' '.join(text.split())},
                'why_tests_cant': ' '.join(why.split()),
                'anchors': {'files': files, 'mechanism': [{'name': a, 'where': b} for a, b in mech],
                            'observe_at': observe or [], 'hook_needed': hook}})


P('C01', 'The checks in force are exactly the documented function of the request',
  '''For every selection request (level argument, comma list of check names, printed fixit names, level names and no-<check>
  items, CLAZY_CHECKS with or without quotes, in the plugin and in clazy-standalone) the checks in force are: everything named or
  contained in a named level (levels are cumulative, manual checks belong to none), level1 when nothing was named, minus
  everything disabled, each once. Unknown names are reported and a request naming nothing that exists is refused.
  A diagnostic is only ever emitted by a check in force.''',
  ['inputs', 'configurations'], 'all selection strings, in the argument and in the environment, and their combinations',
  'One shell test runs 11 requests; the algebra (order, duplicates, levels mixed with disables, environment plus argument) is unbounded.',
  ['src/checkmanager.cpp', 'src/Clazy.cpp', 'src/ClazyStandaloneMain.cpp', 'src/Checks.h'],
  [('requestedChecks / checksForCommaSeparatedString', 'src/checkmanager.cpp'), ('ParseArgs', 'src/Clazy.cpp')],
  ['plugin print-requested-checks output', 'clazy-standalone -list-checks output', 'tags of emitted diagnostics'])

P('C02', 'Every listing of checks, levels and fixits tells the same truth',
  '''The plugin's help (for the checks of the levels), clazy-standalone's -list-checks and -supported-checks-json, clang-tidy's check
  list, the wrapper's --list and --explain, the README and the checks that can really be run name the same checks, at the same levels and
  with the same fixits; every check and fixit that is listed can be selected on its own, a listed check reports the pattern it is for,
  and a check that is listed with fixits suggests edits.''',
  ['configurations', 'inputs'], 'all checks, levels and fixits in all listings',
  'No test compares the listings; a check or level that is wrong in one of them passes every test.',
  ['checks.json', 'checks.json.h.in', 'src/Checks.h', 'src/Clazy.cpp', 'src/ClazyStandaloneMain.cpp', 'src/ClazyClangTidyModule.cpp'],
  [('registration list', 'src/Checks.h'), ('PrintHelp', 'src/Clazy.cpp'), ('addCheckFactories', 'src/ClazyClangTidyModule.cpp')],
  ['output of the listings', 'fix-its in diagnostics and exported YAML'])

P('C03', 'Compiler plugin, clazy-standalone and clang-tidy report the same warnings',
  '''For the same program, compiler flags and checks, the compiler plugin, clazy-standalone and the clang-tidy module report the same
  set of clazy diagnostics (file, line, column, check, text) and suggest the same edits, for code in the main file and in user headers.''',
  ['programs', 'configurations'], 'all programs and all sets of checks',
  'The tests compare each front end with its own expected output on fixed files, and clang-tidy is only run for a part of them.',
  ['src/Clazy.cpp', 'src/ClazyStandaloneMain.cpp', 'src/ClazyClangTidyModule.cpp', 'src/ClazyVisitHelper.cpp', 'src/ClazyContext.cpp'],
  [('shared visit helper', 'src/ClazyVisitHelper.cpp'), ('warning reporters', 'src/ClazyContext.cpp, src/ClazyClangTidyModule.cpp')],
  ['diagnostics of the three front ends', 'YAML exported by each'])

P('C04', 'Checks do not influence one another',
  '''For every program and every set of checks, the diagnostics and suggested edits of a run with the whole set are exactly the union
  of those of running each check of the set alone; the order in which the checks are named, and naming one twice, changes nothing.''',
  ['programs', 'configurations'], 'all programs and all sets of checks',
  'The tests run one check at a time; interference needs particular pairs of checks over the same code.',
  ['src/ClazyVisitHelper.cpp', 'src/ClazyContext.cpp', 'src/checkbase.cpp', 'src/PreProcessorVisitor.cpp', 'src/AccessSpecifierManager.cpp'],
  [('per-check state in check objects', 'src/checkbase.h'), ('shared context (parent map, access specifiers)', 'src/ClazyContext.cpp')],
  ['diagnostics per check set'])

P('C05', 'The report on a file does not depend on what was analysed before or with it',
  '''Analysing several translation units in one run of clazy-standalone or clang-tidy, in any order and any number of times,
  reports for each exactly what a run on it alone reports; repeating a run gives the same diagnostics in the same order.''',
  ['histories', 'programs'], 'all sequences of translation units in one process; repeated runs',
  'The tests run one file per process, except for two multi-file clazy-standalone cases.',
  ['src/Clazy.cpp', 'src/ClazyContext.cpp', 'src/ClazyClangTidyModule.cpp', 'src/Utils.cpp', 'src/QtUtils.cpp', 'src/checks'],
  [('a context and check objects per translation unit', 'src/Clazy.cpp, src/ClazyClangTidyModule.cpp')],
  ['diagnostics per translation unit'])

P('C06', 'Suppression comments silence exactly what they name',
  '''A documented suppression comment (clazy:skip, clazy:excludeall=, clazy:exclude=, clazy:exclude-next-line=, and NOLINT,
  NOLINTNEXTLINE, NOLINTBEGIN/END with or without a list of clazy- names and globs) removes from the report exactly the diagnostics
  of the named checks at the lines it governs, in whichever file it stands and however many comments the file holds, and no other
  diagnostic; text that is not such a comment suppresses nothing.''',
  ['programs', 'inputs'], 'all placements, spellings, lists and combinations of suppression comments over all diagnostics',
  'Two test files hold a dozen hand-placed comments.',
  ['src/SuppressionManager.cpp', 'src/checkbase.cpp', 'README.md'],
  [('isSuppressed / parseFile', 'src/SuppressionManager.cpp')],
  ['diagnostics with and without the comment'])

P('C07', 'Location filters keep exactly the diagnostics they describe',
  '''Header filter, ignored directories, line filter, -isystem, ignore-included-files and only-qt (options and environment variables)
  remove exactly the diagnostics whose reported location they exclude: the main file is exempt from the header filter, line-filter entries match file
  names by suffix and ranges inclusively, and what is kept is unchanged.''',
  ['inputs', 'configurations', 'programs'], 'all regular expressions, line ranges and directory layouts',
  'A handful of shell tests use one filter each on one layout.',
  ['src/ClazyContext.h', 'src/ClazyContext.cpp', 'src/checkbase.cpp', 'src/ClazyVisitHelper.cpp'],
  [('shouldIgnoreFile / fileMatchesLoc / passesLineFilter', 'src/ClazyContext.h')],
  ['diagnostics with and without the filter'])

P('C08', 'Severity options change severities and the exit status, nothing else',
  '''-Werror, CLAZY_NO_WERROR and CLAZY_CHECKS_AS_ERRORS turn exactly the documented diagnostics into errors (or keep them warnings) and
  the exit status follows; locations, checks, texts and the set of diagnostics stay the same, and without any of them clazy
  never makes a compilation fail.''',
  ['configurations', 'programs'], 'all combinations of the options, checks and programs',
  'Two tests cover one check each; combinations and several diagnostics in one run are not covered.',
  ['src/checkbase.cpp', 'src/ClazyContext.h', 'src/checkmanager.cpp'],
  [('emitWarning / reallyEmitWarning', 'src/checkbase.cpp'), ('treatAsError', 'src/ClazyContext.h')],
  ['severity of each diagnostic', 'exit status'])

P('C09', 'Exported fix files are a faithful record of the suggested edits',
  '''With export-fixes, the YAML written by the plugin or by clazy-standalone (one or several translation units) is well formed and holds every
  diagnostic of clazy the run reported and no other, each with the position and message it was reported with and with exactly the edits the
  compiler's own fix-it output describes, as ranges inside existing files (an edit of code that comes from a macro definition is in
  neither). Nothing of an earlier run stays in the file.''',
  ['programs', 'histories'], 'all programs with fixable code, in one or several translation units and headers',
  'The tests apply fixits of fixed files through one path and compare texts; offsets, multi-file aggregation and agreement with the reported fix-its are not checked.',
  ['src/FixItExporter.cpp', 'src/FixItUtils.cpp', 'src/ClazyContext.cpp'],
  [('HandleDiagnostic / ConvertDiagnostic / Export', 'src/FixItExporter.cpp')],
  ['YAML files', '-fdiagnostics-parseable-fixits'])

P('C10', 'Applying suggested edits keeps a program compiling and comes to an end',
  '''For every valid program, applying the edits one check offers for a place gives a program that still compiles. Analysing that program again
  and applying what is offered then comes to an end: the same place is not edited again and again.''',
  ['programs'], 'all valid programs containing fixable code',
  'The tests compare with recorded texts for a few dozen snippets; other operand shapes, nesting, macros and layouts are open.',
  ['src/FixItUtils.cpp', 'src/checks'],
  [('fixit construction', 'src/FixItUtils.cpp and the checks that have fixits')],
  ['compilation of the edited program', 'second run on it'])

P('C11', 'Suggested edits do not change what the program does',
  '''For every valid program with defined behaviour, the program obtained by applying the edits of a check prints and returns
  the same as the original one when it is run against the real Qt.''',
  ['programs', 'inputs'], 'all valid programs containing fixable code, over the values they handle',
  'No test runs a program, before or after its edits.',
  ['src/FixItUtils.cpp', 'src/checks'],
  [('fixit construction', 'the checks that have fixits')],
  ['output and exit status of the built program before and after'])

P('C12', 'No program makes clazy crash, hang or touch invalid memory',
  '''For every translation unit the compiler accepts as input, valid, erroneous or truncated, in any language mode and with any Qt or
  none, and with every set of checks and options, the analysis ends normally: no crash, failed assertion, undefined behaviour,
  memory error or endless loop.''',
  ['programs', 'inputs', 'configurations'], 'all source texts, flags, checks and option values',
  'The tests run an optimised build without assertions on well-formed snippets written for the check at hand.',
  ['src'],
  [('null checks and casts throughout the checks', 'src/checks')],
  ['ASan, UBSan, libstdc++ and clang assertions', 'exit status, time limit'])

P('C13', 'Analysing a program does not change how it is compiled',
  '''Compiling with the plugin loaded yields the same object code, the same preprocessed output and the same compiler diagnostics and exit
  status as compiling without it, whatever the checks; a front end never writes to the files it reads.''',
  ['programs', 'configurations'], 'all programs, flags and checks',
  'The tests use -fsyntax-only and look at the clazy output only.',
  ['src/Clazy.cpp', 'src/checkbase.cpp', 'src/PreProcessorVisitor.cpp'],
  [('AddAfterMainAction plugin action', 'src/Clazy.h'), ('visiting does not mutate the AST', 'src/ClazyVisitHelper.cpp')],
  ['object files, compiler diagnostics, exit status', 'contents of the source tree'])

P('C14', 'Signature normalization agrees with Qt',
  '''connect-not-normalized reports a SIGNAL, SLOT, Q_ARG or Q_RETURN_ARG text exactly if Qt's own
  QMetaObject::normalizedSignature (or normalizedType), as Qt 5 implements it, would change it, and the replacement it names is what Qt gives; texts
  in disconnect are left alone.''',
  ['inputs'], 'all signature texts',
  'The test file holds about twenty signatures.',
  ['src/NormalizedSignatureUtils.h', 'src/checks/level0/connect-not-normalized.cpp'],
  [('normalizedSignature, a copy of code from Qt', 'src/NormalizedSignatureUtils.h')],
  ['warnings against QMetaObject::normalizedSignature in a real program'])

P('C15', 'Signals, slots and invokables are recognised the way moc does it',
  '''For every QObject class, a method is treated as a signal, slot, invokable or plain method exactly as moc classifies it, whichever
  keywords, macros, access sections, order or nesting the class uses; the checks about signals and slots report on exactly those methods.''',
  ['programs'], 'all class layouts mixing access sections, signals, slots, Q_SIGNAL, Q_SLOT, Q_INVOKABLE and nested classes',
  'The tests use simple classes with one section of each kind.',
  ['src/AccessSpecifierManager.cpp', 'src/QtUtils.cpp', 'src/checks/level0/connect-non-signal.cpp', 'src/checks/level0/overloaded-signal.cpp'],
  [('access specifier tracking from preprocessor callbacks', 'src/AccessSpecifierManager.cpp')],
  ['warnings of the signal and slot checks against the meta object moc generates'])

P('C16', 'Reports follow the meaning of the code, not its layout',
  '''Rewriting a program without changing its meaning (white space, line ends and comments, renaming user identifiers, unrelated
  declarations around it, an enclosing namespace or block, moving it to an included header) changes a report only in the
  positions and names that moved.''',
  ['programs'], 'all programs and all such rewritings',
  'Each test fixes one layout of its snippet.',
  ['src/checks', 'src/Utils.cpp', 'src/HierarchyUtils.h', 'src/StringUtils.cpp'],
  [('AST based matching', 'src/checks')],
  ['diagnostics before and after the rewriting'])

P('C17', 'Several analyses can run at the same time in one process',
  '''Analyses of different translation units that run concurrently in one process, as with libclang, report what each reports when run alone, without
  data races on clazy's state.''',
  ['schedules', 'programs'], 'all interleavings of concurrent analyses',
  'No test runs two analyses in one process at the same time.',
  ['src/Clazy.cpp', 'src/checkmanager.cpp', 'src/ClazyContext.cpp', 'src/QtUtils.cpp', 'src/SuppressionManager.cpp'],
  [('CheckManager::lock and per-analysis contexts', 'src/Clazy.cpp')],
  ['ThreadSanitizer reports', 'diagnostics of each analysis'])

P('C18', 'Advice on passing arguments follows the types the compiler sees',
  '''function-args-by-ref, function-args-by-value, range-loop-reference and foreach report a parameter or loop variable exactly if the size
  (more than 16 bytes), trivial copyability and trivial destructibility of its type call for the other way of passing it, as
  sizeof and the standard type traits tell, outside the documented exceptions.''',
  ['programs'], 'all types built from members, bases, special members, templates and aliases, in all kinds of functions',
  'The tests cover a few hand-written types.',
  ['src/Utils.cpp', 'src/TypeUtils.cpp', 'src/checks/level2/function-args-by-ref.cpp', 'src/checks/level2/function-args-by-value.cpp'],
  [('classifyQualType', 'src/TypeUtils.cpp')],
  ['warnings against static type traits evaluated by the compiler'])

P('C19', 'Findings about literals agree with what Qt makes of the literal',
  '''Checks that judge a literal or constant (QColor names, QLatin1String texts, enumerators of flags, JNI and qml names, string
  literals in QString calls) report exactly the values for which the documented condition holds, for every value, spelling and encoding of the literal.''',
  ['inputs'], 'all literal values and spellings',
  'The tests hold a few literals each.',
  ['src/checks/level0/qcolor-from-literal.cpp', 'src/checks/level1/qlatin1string-non-ascii.cpp', 'src/checks/manuallevel/unexpected-flag-enumerator-value.cpp',
   'src/checks/manuallevel/jnisignatures.cpp', 'src/checks/level0/lowercase-qml-type-name.cpp', 'src/checks/level0/empty-qstringliteral.cpp'],
  [('literal inspection in each check', 'src/checks')],
  ['warnings against the value computed independently or by Qt at run time'])

P('C20', 'Findings about special members and virtual calls follow the language rules',
  '''rule-of-three, rule-of-two-soft, copyable-polymorphic, virtual-call-ctor, non-pod-global-static and wrong-qglobalstatic report a class or object
  exactly if the documented condition on its special members, bases, virtual functions and calls holds, for every combination of them.''',
  ['programs'], 'all combinations of declared, defaulted, deleted and missing special members, access, bases and virtual functions',
  'The tests list a few combinations of a space of thousands.',
  ['src/checks/level2/rule-of-three.cpp', 'src/checks/level1/rule-of-two-soft.cpp', 'src/checks/level2/copyable-polymorphic.cpp',
   'src/checks/level2/virtual-call-ctor.cpp', 'src/checks/level1/non-pod-global-static.cpp', 'src/checks/level0/wrong-qglobalstatic.cpp'],
  [('inspection of CXXRecordDecl', 'src/checks')],
  ['warnings against an independent model of the class'])

P('C21', 'The clazy wrapper is transparent',
  '''The clazy script hands every argument to the compiler byte for byte and in order, adds only the options that load the plugin, takes its
  checks from CLAZY_CHECKS as documented, and returns the compiler's exit status, whatever the arguments, the
  environment and the folder it is installed in.''',
  ['inputs', 'configurations'], 'all argument vectors, environments and installation paths',
  'No test runs the wrapper with anything but plain arguments.',
  ['clazy.cmake'],
  [('argument quoting and exec', 'clazy.cmake')],
  ['argument vector and exit status seen by a recording compiler'])

P('C22', 'Detach warnings point at calls that detach, and only at those',
  '''The checks about implicit sharing (range-loop-detach, detaching-temporary, detaching-member, readlock-detaching, strict-iterators, foreach) report the uses
  of a Qt container that call a detaching member in the documented situations and never a use that cannot detach (const object, const
  member, reference to const, std container), for every container, element type and way of naming it.''',
  ['programs'], 'all Qt containers, element types, constness, aliases and access paths',
  'The tests use a few containers and call forms per check.',
  ['src/checks/level1/range-loop-detach.cpp', 'src/checks/level1/detaching-temporary.cpp', 'src/checks/detachingbase.cpp', 'src/checks/manuallevel/detaching-member.cpp',
   'src/checks/level1/readlock-detaching.cpp', 'src/checks/level0/strict-iterators.cpp'],
  [('detachingMethods tables', 'src/QtUtils.cpp'), ('type and constness tests', 'src/checks')],
  ['warnings against the real container detaching in a running program'])

P('C23', 'Diagnostics are well formed, owned and placed',
  '''Every diagnostic clazy emits has a severity, a text without unresolved formatting whatever characters the user's code holds, the tag of a check in force, and a location on an existing line and column
  of a file of the program, is emitted once, and only suggests edits inside files of the program.''',
  ['programs', 'inputs'], 'all programs and all checks',
  'The tests compare whole outputs of fixed files.',
  ['src/checkbase.cpp', 'src/ClazyContext.cpp'],
  [('emitWarning', 'src/checkbase.cpp')],
  ['each diagnostic of every run'])

P('C24', 'The documented patterns are reported wherever they occur',
  '''Code showing a pattern that a check's documentation describes is reported by that check at its line, and code documented as correct is not,
  in every ordinary context: free and member functions, lambdas, templates, nested statements, namespaces, through aliases and with macros around it.''',
  ['programs'], 'all documented patterns in all ordinary contexts',
  'The tests hold each pattern in one or two contexts.',
  ['src/checks', 'docs/checks'],
  [('AST matching in each check', 'src/checks')],
  ['warnings at generated lines whose verdict is known by construction'])

P('C25', 'A QT_NAMESPACE build of Qt is treated like an ordinary one',
  '''When Qt is configured into a namespace, every check that works on Qt types reports the same lines as without it.''',
  ['programs', 'configurations'], 'all programs over Qt types, all namespace names',
  'Each test runs with one configuration of the namespace.',
  ['src/QtUtils.cpp', 'src/checks', 'src/PreProcessorVisitor.cpp'],
  [('qtNamespaced', 'src/checkbase.h, src/PreProcessorVisitor.cpp')],
  ['diagnostics with and without QT_NAMESPACE'])

P('C26', 'Failing input and output is reported, and never loses other results',
  '''When a file cannot be read or written (missing sources, overlay or header, unwritable or full export target, closed output) the
  run says so and ends with a failure status or goes on with the rest, without crashing and without dropping the diagnostics of the parts that worked.''',
  ['fault_sequences', 'configurations'], 'all single faults on the files a run touches, in one- and many-file runs',
  'The tests inject no fault.',
  ['src/FixItExporter.cpp', 'src/ClazyStandaloneMain.cpp', 'src/ClazyContext.cpp'],
  [('error paths', 'src/FixItExporter.cpp, src/ClazyStandaloneMain.cpp')],
  ['exit status, messages and diagnostics of faulted runs'])

if __name__ == '__main__':
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(root, 'properties.jsonl'), 'w') as f:
        for p in OUT:
            f.write(json.dumps(p, ensure_ascii=False) + '\n')
    print(len(OUT), 'properties')
