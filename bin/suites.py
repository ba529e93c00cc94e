"""Which worker decides which property, and how each worker is built."""
import glob, os, re
from build import VERIF, REPO, build

ASAN = ['-fsanitize=address']
COV = ['-fsanitize-coverage=trace-pc-guard']
RACE = ['-fsanitize-coverage=trace-pc-guard,trace-loads,trace-stores']
LINK = ['-fsanitize=address', '-fsanitize-coverage=trace-pc-guard', '-rdynamic', '-Wl,--wrap=fopen', '-ldl', '-lpthread']
SIM = os.path.join(VERIF, 'sim')
YA = {
    'library': (REPO + '/legacy/Fierro_V0/src/Yaml-Serializable/include', REPO + '/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp'),
    'multiphysics': (REPO + '/apps/multiphysics/src/input', REPO + '/apps/multiphysics/src/input/Yaml.cpp'),
}


def yaml_suite(variant, race):
    inc, src = YA[variant]
    y = os.path.join(VERIF, 'yaml')
    units = [(SIM + '/dst.cpp', ['-O1'] + ASAN), (src, ['-O1'] + ASAN + (RACE if race else COV) + ['-I' + inc])]
    units.append((y + '/as_sut.cpp', ['-O1', '-ftrivial-auto-var-init=pattern'] + ASAN + COV + ['-I' + y, '-I' + inc]))
    for f in ('p_tree.cpp', 'p_store.cpp', 'p_as.cpp'):
        units.append((y + '/' + f, ['-O1'] + ASAN + ['-I' + SIM, '-I' + y, '-I' + inc]))
    return build('yaml-%s%s' % (variant, '-race' if race else ''), units, LINK)


def typed_suite(race=False):
    inc, src = YA['library']
    y = os.path.join(VERIF, 'yaml')
    units = [(y + '/typed_sut.cpp', ['-O1', '-w', '-ftrivial-auto-var-init=pattern'] + ASAN + (RACE if race else COV) + ['-I' + y, '-I' + inc]),
             (src, ['-O1'] + ASAN + (RACE if race else COV) + ['-I' + inc]),
             (y + '/p_typed.cpp', ['-O1', '-w'] + ASAN + ['-I' + SIM, '-I' + y, '-I' + inc]),
             (SIM + '/dst.cpp', ['-O1'] + ASAN)]
    return build('typed' + ('-race' if race else ''), units, LINK)


MICRO = ('EVPFFT', 'LS-EVPFFT', 'LS-EVPFFT-J2', 'LSNP-EVPFFT')


def micro_suite(app):
    m, src = os.path.join(VERIF, 'micro'), REPO + '/apps/micromechanics/%s/src' % app
    units = [(f, ['-O1'] + ASAN + COV + ['-I' + m, '-I' + src]) for f in (m + '/micro_sut.cpp', src + '/XdmfUniformGridWriter.cpp', src + '/command_line_args.cpp')]
    units += [(m + '/p_micro.cpp', ['-O1'] + ASAN + ['-I' + SIM, '-I' + m]), (SIM + '/dst.cpp', ['-O1'] + ASAN)]
    return build('micro-' + app, units, LINK + ['-Wl,--wrap=exit'])


MPS = REPO + '/apps/multiphysics/src'


def cmake_list(d, seen=()):
    """The source files the CMake build of a directory (and those below it) compiles."""
    out = []
    for f in sorted(glob.glob(d + '/**/CMakeLists.txt', recursive=True)):
        with open(f) as h:
            t = re.sub(r'#[^\n]*', '', h.read())
        here = os.path.dirname(f)
        for w in re.findall(r'[^\s()]+\.cpp', t):
            w = w.replace('${CMAKE_CURRENT_SOURCE_DIR}', here)
            w = w if w.startswith('/') else os.path.join(here, w)
            if os.path.exists(w) and w not in out:
                out.append(w)
    return out


def mp_suite():
    m = os.path.join(VERIF, 'mp')
    inc = [m + '/shim', MPS]
    for f in sorted(glob.glob(MPS + '/**/*.hpp', recursive=True) + glob.glob(MPS + '/**/*.h', recursive=True)):
        if os.path.dirname(f) not in inc:
            inc.append(os.path.dirname(f))
    app = ['-O1', '-g0', '-ffp-contract=off', '-w', '-DHAVE_KOKKOS=1', '-D_GLIBCXX_ASSERTIONS'] + ['-I' + i for i in inc]
    sim = ['-I' + SIM, '-I' + m]
    units = [(m + '/mp_sut.cpp', app + sim)]
    units += [(f, app + RACE) for f in cmake_list(MPS) if os.path.basename(f) != 'main.cpp']
    units += [(m + '/shim/ELEMENTS.cpp', app), (m + '/mpsim.cpp', ['-O2', '-w', '-I' + m + '/shim'] + sim), (SIM + '/dst.cpp', ['-O1', '-DDST_NO_ACCESS'])]
    units += [(f, ['-O1', '-g0', '-w'] + sim) for f in sorted(glob.glob(m + '/p_*.cpp'))]
    return build('mp', units, ['-fsanitize-coverage=trace-pc-guard', '-rdynamic', '-Wl,--wrap=fopen', '-Wl,--wrap=exit', '-ldl', '-lpthread'])


def evp_suite(app):
    """A micromechanics program as a simulated MPI job on the simulated device."""
    m, e, src = os.path.join(VERIF, 'mp'), os.path.join(VERIF, 'evp'), REPO + '/apps/micromechanics/%s/src' % app
    sh = ['-I' + e + '/shim', '-I' + m + '/shim']
    a = ['-O1', '-g0', '-ffp-contract=off', '-w', '-DHAVE_KOKKOS=1', '-DUSE_FFTW=1', '-DMP_NO_REAL_T', '-D_GLIBCXX_ASSERTIONS', '-Dmain=evp_main'] + sh + ['-I' + src]
    sim = ['-I' + SIM, '-I' + m, '-I' + e]
    units = [(f, a + RACE) for f in cmake_list(src) if '-Link/' not in f]
    units += [(e + '/mpirt.cpp', ['-O2', '-w'] + sh + sim), (e + '/evp_sut.cpp', ['-O1', '-w'] + sh + sim)]
    units += [(m + '/mpsim.cpp', ['-O2', '-w'] + sh + sim), (SIM + '/dst.cpp', ['-O1', '-DDST_NO_ACCESS'])]
    units += [(f, ['-O1', '-g0', '-w', '-DEVP_APP="%s"' % app] + sim) for f in sorted(glob.glob(e + '/p_*.cpp'))]
    return build('evp-' + app, units, ['-fsanitize-coverage=trace-pc-guard', '-rdynamic', '-Wl,--wrap=fopen', '-Wl,--wrap=exit', '-ldl', '-lpthread'])


def ys(race=False):
    return {v: (lambda v=v: yaml_suite(v, race)) for v in YA}


YREAL = ['Yaml.cpp (both copies: Yaml-Serializable and apps/multiphysics/src/input), including Node containers, parser and serializer, and libstdc++ file streams']
YSTUB = ['disk (in-memory file system behind the C library calls)', 'operator new (seeded failures)', 'thread scheduler (baton, one thread runs at a time)']

PROPS = {}


def prop(pid, variants, real, stub, rule, quick=14, thorough=240, assume=(), fixed_runs=None):
    PROPS[pid] = dict(variants=variants, real=real, stub=stub, rule=rule, quick=quick, thorough=thorough, assume=list(assume))


R = 'One case is one simulated run generated from one seed (a trace of operations, schedule choices and faults). '
prop('C01', ys(), YREAL, YSTUB, R + 'Non-trivial: the history changed at least one container and the document was compared with the reference model after every operation; distinct by hash of all observations.')
prop('C02', ys(), YREAL, YSTUB, R + 'Non-trivial: at least one copy or assignment between live documents took place; distinct by hash of all observations.')
prop('C03', ys(), YREAL, YSTUB, R + 'Non-trivial: at least one non-empty document was saved and loaded back; distinct by hash of the texts written.')
prop('C04', ys(), YREAL, YSTUB, R + 'Non-trivial: at least one injected storage fault really fired; distinct by hash of outcomes, fired faults and document contents.', quick=18)
prop('C05', ys(), YREAL, YSTUB, R + 'Non-trivial: a text was rejected or produced a non-empty document; distinct by hash of all results.')
prop('C06', ys(), YREAL, YSTUB, R + 'Non-trivial: at least one presentation of a non-empty tree was parsed; distinct by hash of the presented texts.')
prop('C07', ys(), YREAL, YSTUB, R + 'Non-trivial: an armed allocation failure really fired inside an operation; distinct by hash of outcomes and document contents.')
prop('C08', ys(True), YREAL, YSTUB, R + 'Non-trivial: at least one preemption took place while several threads were alive; distinct by hash of the thread switch order and all results.')
prop('C13', ys(), YREAL, YSTUB, R + 'Non-trivial: at least one value was converted; distinct by hash of all results.', quick=8, thorough=60)
TREAL = ['the typed layer of Yaml-Serializable (all headers, instantiated for a family of configuration types) on the real Yaml.cpp']
TY = {'library': typed_suite}
prop('C09', TY, TREAL, YSTUB, R + 'Non-trivial: at least one object was loaded from a non-empty input; distinct by hash of all loaded values.')
prop('C10', TY, TREAL, YSTUB, R + 'Non-trivial: an input with exactly one broken place was judged by strict and by plain loading; distinct by hash of all outcomes.')
prop('C11', TY, TREAL, YSTUB, R + 'Non-trivial: at least one hook was expected to run; distinct by hash of the hook histories.')
prop('C12', {'library': typed_suite, 'library-race': lambda: typed_suite(True)}, TREAL, YSTUB, R + 'Non-trivial: at least one object was loaded through its discriminator; distinct by hash of all loaded values.')
MREAL = ['XdmfUniformGridWriter and command_line_args of the four micromechanics programs', 'the C library stdio buffering and getopt_long']
MI = {a: (lambda a=a: micro_suite(a)) for a in MICRO}
prop('C20', MI, MREAL, ['disk (in-memory device below real stdio buffering)'], R + 'Non-trivial: at least one description was reported as written and judged; distinct by hash of outcomes and texts.', quick=10)
prop('C21', MI, MREAL, ['process exit (recorded instead of performed)', 'standard output (captured)'], R + 'Non-trivial: at least one command line was judged; distinct by hash of the command lines and verdicts.', quick=6, thorough=60)
MP = {'multiphysics': mp_suite}
MPREAL = ['apps/multiphysics: driver, input parsing, mesh building and reading, region fill, all solvers, material models, boundary conditions and output writers (every source file of its CMake build except main.cpp)', 'libstdc++ and C library streams']
MPSTUB = ['Kokkos, MATAR and ELEMENTS (a simulated device: seeded kernel order, separate host and device memories, access oracle; mesh connectivity re-implemented)', 'disk (in-memory file system)', 'shell commands (mkdir, rm on that file system)', 'process exit and abort (recorded)']
NT = 'Non-trivial: '
prop('C30', MP, MPREAL, MPSTUB, R + NT + 'the problem ran under two kernel orders and at least one kernel was permuted; distinct by hash of the final state and the order.', quick=25)
prop('C31', MP, MPREAL, MPSTUB, R + NT + 'the problem ran with shared and with separate memories; distinct by hash of the final state.', quick=25)
prop('C33', MP, MPREAL, MPSTUB, R + NT + 'a mesh file was read or refused; distinct by hash of the file and outcome.', quick=14)
prop('C34', MP, MPREAL, MPSTUB, R + NT + 'output files were written and compared; distinct by hash of all files.', quick=16)
prop('C35', MP, MPREAL, MPSTUB, R + NT + 'the initial state was compared with the reference fill; distinct by hash of the initial state.', quick=14)
prop('C32', MP, MPREAL, MPSTUB, R + NT + 'the mesh and its boundary sets were compared with the request; distinct by hash of the mesh.', quick=12)
prop('C36', MP, MPREAL, MPSTUB, R + NT + 'the conserved quantities were compared at the start and at least one later time; distinct by hash of the final state.', quick=16)
prop('C37', MP, MPREAL, MPSTUB, R + NT + 'the states of both runs were compared at the start and at least one later output; distinct by hash of the final state.', quick=16)
prop('C38', MP, MPREAL, MPSTUB, R + NT + 'at least two outputs were written and their times and steps compared with the limits; distinct by hash of the final state.', quick=16)
prop('C39', MP, MPREAL, MPSTUB, R + NT + 'at least one prescribed velocity component or boundary traction was compared with the condition that sets it; distinct by hash of the final state.', quick=16)
prop('C44', MP, MPREAL, MPSTUB, R + NT + 'at least one later output was compared with the independent scheme; distinct by hash of the final state.', quick=16)
prop('C40', MP, MPREAL, MPSTUB, R + NT + 'a reordered file was compared with the original, or a file with a mistake was given to the program; distinct by what was observed.', quick=16)
prop('C41', MP, MPREAL, MPSTUB, R + NT + 'at least one later output was compared with the independent scheme; distinct by hash of the final state.', quick=16)
prop('C42', MP, MPREAL, MPSTUB, R + NT + 'at least one later output was compared with the independent scheme; distinct by hash of the final state.', quick=16)
EV = {a: (lambda a=a: evp_suite(a)) for a in MICRO}
EVREAL = ['the four micromechanics programs (EVPFFT, LS-EVPFFT, LS-EVPFFT-J2, LSNP-EVPFFT): every source file of their CMake builds', 'libstdc++ and C library streams']
EVSTUB = ['MPI (one thread per rank, one runs at a time, seeded switches at every call)', 'heFFTe (same decomposition, direct transform)', 'HDF5 (data sets on the simulated disk)', 'Kokkos and MATAR (simulated device)', 'disk (in-memory file system)', 'shell (mkdir)', 'process exit (recorded)']
prop('C50', EV, EVREAL, EVSTUB, R + NT + 'the problem finished on one and on several ranks and all reports were compared; distinct by outcome and hash of the rank switches.', quick=40)
prop('C51', EV, EVREAL, EVSTUB, R + NT + 'the problem finished under two device schedules with at least one permuted kernel and all reports were compared; distinct by outcome and hash of the kernel order.', quick=40)
prop('C52', EV, EVREAL, EVSTUB, R + NT + 'a damaged version of a valid problem was given to the program; distinct by outcome and hash of the rank switches.', quick=40)
prop('C53', EV, EVREAL, EVSTUB, R + NT + 'an injected disk fault, a full disk or a killed rank really struck the run; distinct by outcome and hash of the rank switches.', quick=40)
prop('C54', {a: EV[a] for a in ('EVPFFT', 'LS-EVPFFT', 'LS-EVPFFT-J2')}, EVREAL, EVSTUB, R + NT + 'the reports of at least two iterations were compared with the reference model; distinct by outcome and hash of the rank switches.', quick=40)
