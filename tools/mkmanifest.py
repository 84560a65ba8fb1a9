#!/usr/bin/env python3
"""writes MANIFEST.json from the table of checks below"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
O = 'python3 checks/options_check.py'
MC = 'model_checking'
L = 'python3 checks/loader_check.py'
W = 'python3 checks/wrap_check.py'
F = 'python3 checks/front_check.py'
P = 'python3 checks/template_check.py'
CHECKS = {
 'C01': (L + ' C01', 'TLA+/TLC: exhaustive Loader model, test sequences from its labelled state graph run on generated C code, traces validated by TLC', MC,
         'Every transition of the bounded model (3 symbols) is taken on real generated C code under a scripted dynamic loader and every step of every execution is checked by TLC against spec/Loader.tla; random walks and 8 build variants besides. Trusts the scripted loader, gcc/clang and TLC.'),
 'C02': (L + ' C02', 'TLA+/TLC: Loader model with two C++ objects, sequences from its state graph run on the generated class, traces validated by TLC', MC,
         'Exhaustive model for 2 symbols and 2 objects; quick takes a sample of its transitions on real code, thorough all; every step checked by TLC.'),
 'C03': ('python3 checks/C03.py', 'TLA+/TLC: naming rules (Names.tla) enumerated by TLC, generated programs run on them, every load-by-number/name/alias validated by TLC', MC,
         'All small symbol-name sets over a two-letter alphabet plus random and adversarial sets; every number and name variant is asked for, in C and C++, and each answer and binding is checked by TLC.'),
 'C04': (L + ' C04', 'TLA+/TLC trace validation of error texts along behaviours of the Loader model', MC,
         'Error rules of Loader.tla checked by TLC after every call, all failure kinds, missing, empty and over-long loader messages.'),
 'C05': (L + ' C05', 'TLA+/TLC trace validation of library path queries along behaviours of the Loader model', MC,
         'Path rules of Loader.tla checked by TLC, histories of load/free/reload/query over one C API or two C++ objects, dlinfo/dladdr failing, empty, relative, too long.'),
 'C06': (W + ' C06', 'TLA+/TLC: exhaustive Wrap model (calls through wrappers on top of Loader), all its labelled transitions taken on generated code, random prototypes, traces validated by TLC', MC,
         'All transitions of the bounded model for C and C++ plus hundreds of random prototypes and 16 ways to build; arguments, hooks, targets, results, messages and aborts are recorded and judged by TLC against spec/Wrap.tla.'),
 'C07': (W + ' C07', 'TLA+/TLC: exhaustive Wrap model with auto-loading (all/lazy), all its labelled transitions taken on generated code, traces validated by TLC', MC,
         'All transitions of the bounded models (C/C++, full/lazy) incl. every failing loader call, plus random prototypes, library names and build variants; process exits are observed and judged by TLC.'),
 'C08': ('python3 checks/mini_check.py C08', 'TLA+/TLC: exhaustive Minimal model, all labelled transitions taken on generated C and C++ loaders, traces validated by TLC', MC,
         'All transitions of the 3-symbol model on 10 build variants, random symbol sets up to 120 symbols; every pointer, return value, exception type and loader call judged by TLC against spec/Minimal.tla.'),
 'C09': ('python3 checks/mini_check.py C09', 'TLA+/TLC: exhaustive Plugin model (two lists), all labelled transitions taken on generated code, traces validated by TLC', MC,
         'All transitions of the model (2 lists of up to 2 (3) names), random lists up to 100 names; entries, handles, pointers, closes and live memory blocks judged by TLC against spec/Plugin.tla. Memory exhaustion is not covered.'),
 'C10': ('python3 checks/C10.py', 'TLA+/TLC: renaming rules (Prefix.tla) and independent-instances specification (CoexistTrace.tla over Loader.tla), outputs and interleaved traces of several generated headers validated by TLC', MC,
         'Every identifier of outputs in all formats under many prefixes is judged by TLC; programs made of 2-3 headers with different prefixes run interleaved walks of the Loader model and every instance is judged after every command. Behaviour of renamed wrappers under all options is sampled.'),
 'C11': (F + ' C11', 'TLA+/TLC: declarators built step by step (DeclMC.tla) with their meaning, fed to the real tool; its output is re-read and compared by TLC (CType.tla, FrontTrace.tla)', MC,
         'All declarators of up to 2 (3) steps with every base type and parameter list of the model, thousands of random longer ones in many spellings; name, type, parameters and order of every emitted symbol judged by TLC. Declarations that need a symbol table or macros are only required not to be emitted as something else.'),
 'C12': (F + ' C12', 'TLA+/TLC: lexical automaton (Front.tla) explored by TLC; access sequence x atom x probe texts run on the real tool and judged by TLC', MC,
         'One text per reachable state of the automaton, extended by every atom and probes (W-method style), random texts from the same atoms and declarations with ignored text in every gap; acceptance and declared symbols judged by TLC. A split or byte order mark within a word is left open.'),
 'C13': (F + ' C13', 'TLA+/TLC: all small selections enumerated by TLC (SelMC.tla) and run on the real tool, outcomes judged by TLC (FrontTrace.tla)', MC,
         'All configurations of up to 3 declarations, 2 prefixes and 3 names of the model (sampled in quick), random larger ones with duplicates and missing names; selected symbols, missing list and status judged by TLC.'),
 'C14': ('python3 checks/C14.py', 'TLA+/TLC: forests of AST nodes enumerated by TLC (AstMC.tla) rendered as Clang dumps and run on the real tool, outcomes judged by TLC (AstTrace.tla); real Clang dumps judged against Clang\'s own JSON form', MC,
         'All forests of the model (redeclarations, parameters, other top-level nodes, flags) and random dumps, plus dumps made by the installed Clang of random headers; names, types, order and status judged by TLC. Other Clang versions\' dump formats are represented by the abstract rendering only.'),
 'C15': (F + ' C15', 'TLA+/TLC: parameter lists enumerated by TLC (DeclMC.tla) run in all three modes on the real tool, outcomes judged by TLC (FrontTrace.tla)', MC,
         'All parameter lists of up to two parameters of the model in three modes, random lists of up to 12 parameters; types kept, names fresh/declared, list handed on, rejection of what a mode cannot handle, all judged by TLC.'),
 'C16': (P + ' C16', 'TLA+/TLC: template machine (Template.tla) explored by TLC over small templates (TemplateMC.tla), all run on the real tool, outputs recomputed and compared by TLC (TemplateTrace.tla)', MC,
         'All templates of up to 3 (4) lines over 17 kinds of lines (sampled in quick), thousands of random ones, complete outputs from random external template sets and from the built-in templates; every line of output compared with what the specification derives from template and symbols.'),
 'C17': (P + ' C17', 'TLA+/TLC: template machine with provenance of every line (Template.tla) and meaning of #line (LineMap.tla); outputs with -line judged by TLC', MC,
         'Same templates as C16; every line of the output is attributed to file and line by LineMap.tla and compared with its provenance. Placement of directives is free as long as the attribution is right.'),
 'C18': ('python3 checks/output_check.py', 'TLA+/TLC: directory/run transition system (Output.tla) explored by TLC (OutputMC.tla), its transitions done in real directories, before/after judged by TLC (OutputTrace.tla)', MC,
         'Directories with 10 kinds of paths for header, body and other names x run configurations (sampled in quick, all in thorough), random names and options; full directory snapshots compared. Runs as an unprivileged user.'),
 'C19': ('python3 checks/C19.py', 'TLA+/TLC: writer with faults at any byte (Writer.tla) explored by TLC (WriterMC.tla), the same faults done to the real tool, outcomes judged by TLC (WriterTrace.tla)', MC,
         'Size limits at sampled (thorough: every) offsets of the output in every mode and format, full device, closed and broken standard output, outputs that cannot be created; status, message and files judged by TLC. Faults on close and sync are not produced; standard streams are open unless the fault is that one of them is not.'),
 'C20': (O + ' C20', 'TLA+/TLC: argument and %option parser (Options.tla) explored by TLC over all small command lines (OptionsMC.tla, invariants on spelling, order and %option equivalence), run on the real tool next to the canonical command line TLC derives, judged by TLC (OptionsTrace.tla)', MC,
         'All command lines of one option with one %option word, pairs sampled (thorough: all), thousands of random longer ones; status, message, files and equality with the canonical spelling judged by TLC. Values without documented meaning are not judged.'),
 'C21': ('python3 checks/C21.py', 'TLA+/TLC: session phases (Session.tla) explored by TLC (SessionMC.tla, liveness: every session ends), all sessions done with the tool and a sanitized build, judged by TLC (SessionTrace.tla); short texts judged by FrontTrace.tla', MC,
         'All combinations of circumstances of the model (sampled in quick), all texts of up to two atoms and random longer ones against the front end specification, mutated texts, dumps, templates and command lines under address and undefined-behaviour sanitizers, large and deep inputs with a time limit. Memory exhaustion is not produced.'),
 'C22': ('python3 checks/C22.py', 'TLA+/TLC: memo table of results (Determinism.tla), histories of ways to feed, store and repeat explored by TLC (DeterminismMC.tla) and done with the real tool, judged by TLC (DeterminismTrace.tla)', MC,
         'Model histories and random ones over formats, options, ways of feeding and storing, dumped templates and environments; header and body of -separate compiled, linked and run next to the single output.'),
 'C23': (O + ' C23', 'TLA+/TLC: effects of settings (Options.tla) derived by TLC and compared with what the real tool wrote (OptionsTrace.tla); macro values seen by the compiler judged by TLC (SettingsTrace.tla)', MC,
         'Same command lines as C20; defines, includes, guard, date, #line, files and template sequence of the output, and for random settings in all formats the default library and macros a compiled program sees (ELF branch of the file name macros only).'),
 'C24': ('python3 checks/platform_check.py C24', 'TLA+/TLC: Loader, Wrap, Minimal and Plugin models with the WinAPI as environment, sequences from their state graphs run on generated code compiled for Windows over scripted WinAPI stand-ins, traces validated by TLC', MC,
         'Narrow, wide and converting builds of the C, C++, minimal and plugin loaders and of the wrappers; thorough takes all labelled transitions. The WinAPI is represented by stand-ins written from its documentation, host compilers are used.'),
 'C25': ('python3 checks/platform_check.py C25', 'TLA+/TLC: the same models with the sources of library paths each system has, sequences run on generated code compiled for dlfcn-win32, AIX, dladdr-only, FreeBSD- and Solaris-like systems over scripted stand-ins, traces validated by TLC', MC,
         'As C24, for five other targets.'),
 'C26': ('python3 checks/C26.py', 'TLA+/TLC: spec/FileNames.tla, all targets x formats x builds x kinds of default library enumerated by TLC, programs compiled for each with random names, the strings they see validated by TLC', MC,
         'Every combination of the model is compiled and run; names and API numbers are sampled.'),
 'C27': ('python3 checks/C27.py', 'TLA+/TLC: spec/System.tla, sequences from its state graph and random ones run by programs of several generated loaders on the real dynamic linker, traces validated by TLC', MC,
         'Every step of every execution is checked by TLC; quick takes a sample of the transitions of three two-loader models, thorough all; the linker is the one of this system (glibc).'),
}


def main():
    props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
    checks, na = [], []
    for p in props:
        i = p['id']
        if i in CHECKS:
            cmd, tech, level, note = CHECKS[i]
            checks.append({'property': i, 'quick_cmd': 'VERIF_TIER=quick ' + cmd, 'thorough_cmd': 'VERIF_TIER=thorough ' + cmd,
                           'evidence_file': f'evidence/{i}.json', 'technique': tech, 'level': level, 'level_note': note})
        else:
            na.append({'property': i, 'reason': NA.get(i, 'check not built yet')})
    m = {'version': 1, 'setup_cmd': 'python3 tools/setup.py',
         'checks': checks, 'not_applicable': na,
         'notes': 'No hooks in /repo: all checks observe the built tool and the code it generates from outside. '
                  'Specifications are TLA+ (spec/*.tla), checked with TLC.'}
    json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
    print(len(checks), 'checks,', len(na), 'not applicable')


NA = {}
if __name__ == '__main__':
    main()
