"""Which families and checks decide which property."""
from core import Group, SAN, SAN_ENV

RULES = {
    'rd_ok': 'a generated value encoded by the model, with bytes before and after it; non-trivial when the encoding is not empty',
    'rd_mut': 'a valid wire with 1-3 fields changed to boundary, near-constraint or random values; non-trivial when the wire differs from a valid one or is non-empty',
    'rd_trunc': 'a valid wire cut at every offset (one evaluation per cut); non-trivial when there is something to cut',
    'rd_rand': 'arbitrary bytes; non-trivial when at least one byte is consumed or the read succeeds',
    'rd_len': 'a valid wire with a length or size input set at, around or far beyond a ceiling; non-trivial when the schema has such a field',
    'wr_ok': 'an object holding a writable value, written after arbitrary earlier bytes; non-trivial when bytes come out',
    'wr_bad': 'a writable value with 1-3 fields perturbed; non-trivial when the model refuses it or the bytes differ',
    'wr_fault': 'a value written to a stream that refuses after k bytes, for the k of the case; non-trivial when the stream refuses',
    'rt_wr': 'a value written, read back and written again; non-trivial when bytes came out',
    'rt_rd': 'bytes read and written back; non-trivial when bytes were consumed',
    'dual': 'one value or wire through both byte orders; non-trivial when bytes came out',
    'kinds': 'one wire or value through every stream kind; non-trivial when it is not empty',
    'pure': 'the same values written repeatedly, from a fresh object, a copy and an object with a past',
    'hist': 'a sequence of casts in mixed byte orders on one stream',
    'life': 'a random history of assignments, reads, copies and restores on one object, written after every step',
    'nest': 'a nested record driven alone and in place; non-trivial when it has bytes',
    'pol': 'what the compiler accepts for one field id',
    'map': 'one field assigned by id, every other field compared',
    'pair': 'one operation on a schema and on its respelled twin',
    'sweep': 'every value of a small scalar (or all boundary values of a wide one) in one field of a valid wire or object',
    'vast': 'one container of 16 KiB to a few MiB, written, read back and read cut short',
    'par': 'two to four reads and writes run in threads of their own, and one from inside the stream of another; non-trivial when their results differ from one another',
    'sizes': 'containers resized around what their length slot can hold',
}

TSAN = ['-O1', '-fsanitize=thread']
TSAN_ENV = {'TSAN_OPTIONS': 'halt_on_error=1:exitcode=66:report_signal_unsafe=0:atexit_sleep_ms=0'}
TSAN_PROBE = '''#include <atomic>
#include <thread>
#include <unistd.h>
#include <sys/wait.h>
int main() {
  pid_t p = fork();
  if (p == 0) {
    std::atomic<int> x{0};
    std::thread a([&] { ++x; }), b([&] { ++x; });
    a.join(); b.join();
    _exit(x == 2 ? 0 : 1);
  }
  int st = 0;
  waitpid(p, &st, 0);
  return st ? 1 : 0;
}
'''
MAIN = dict(general=16, large=2, nest=5, con=5, lens=6, cond=5, comp=4, union=6, maybe=5, wide=4, magic=4, ceil=2, float=3, bulk=1, tiny=2, huge=1, manyalt=2, odd=2, broad=2, pack=1, longmag=1, cases=1, slot=2, shared=3, elems=2, kin=2)


def groups(prop):
    return {
        'C01': [Group(MAIN, 'rt_wr:360,rt_rd:240,vast:8', 60000)],
        'C02': [Group(MAIN, 'wr_ok:360,sizes:40,sweep:10,vast:8', 60000)],
        'C03': [Group(MAIN, 'rd_ok:400,sweep:10,vast:82', 60000)],
        'C04': [Group(dict(wide=24, general=14, nest=4, union=5, lens=5, magic=5, con=4, maybe=2, cond=2, comp=2, odd=3, broad=2, elems=3), 'dual:400,vast:6', 60000)],
        'C05': [Group(MAIN, 'rd_trunc:200,vast:4', 20000)],
        'C06': [Group(dict(con=40, general=5, magic=5, union=5, manyalt=3, bulk=1, odd=2, broad=4, longmag=4, shared=8), 'rd_mut:10,wr_bad:10,sweep:1,rd_ok:4,wr_ok:4', 60000)],
        'C07': [Group(dict(magic=38, con=6, general=4, broad=3, longmag=12), 'rd_mut:10,wr_ok:4,pure:4,life:4,sweep:1,rd_ok:4', 60000)],
        'C08': [Group(dict(lens=34, slot=8, ceil=3, general=5, nest=3, float=2, broad=2, pack=2, shared=5, elems=1, kin=2), 'sizes:100,wr_bad:100,life:50,pure:50,wr_ok:50,vast:8', 60000)],
        'C09': [Group(dict(cond=22, comp=18, slot=12, shared=12, broad=2, pack=1, kin=2), 'wr_bad:4,sizes:2,wr_ok:1,life:1', 60000)],
        'C10': [Group(dict(shared=12, union=26, odd=2, manyalt=6, cases=12, cond=5, general=6, magic=2, con=4, broad=3, kin=2), 'rd_mut:10,rd_ok:4,wr_bad:10,wr_ok:4,sweep:1', 60000)],
        'C11': [Group(dict(maybe=40, cond=8, general=4, broad=2, slot=2, shared=2, kin=3), 'rd_mut:10,rd_ok:4,wr_bad:14,wr_ok:4,sweep:1', 60000)],
        'C13': [Group(MAIN, 'wr_fault:3,wr_bad:2', 30000)],
        'C14': [Group(MAIN, 'rd_mut:3,wr_bad:3,rd_len:1,rd_rand:1', 60000)],
        'C15': [Group(dict(general=8, large=1, nest=3, con=2, lens=3, union=3, maybe=2, magic=2, ceil=2, comp=2, wide=2, float=2, odd=4, broad=1, cases=1, slot=1, longmag=1, shared=1),
                      'rd_rand:2,rd_mut:3,wr_bad:3,life:1,rd_len:1,rd_trunc:1,rt_rd:1', 20000, flags=SAN, env=SAN_ENV),
                Group(dict(general=3, nest=1, con=1, lens=1, union=2, maybe=1, magic=1, comp=1, wide=1, odd=1), 'rd_rand:1,rd_mut:2,wr_bad:2,rd_trunc:1,rt_rd:1,life:1',
                      20000, flags=['-O1'], secs=10, label='memcheck',
                      wrap=['valgrind', '-q', '--exit-on-first-error=yes', '--error-exitcode=99', '--undef-value-errors=yes', '--track-origins=no'])],
        'C16': [Group(dict(general=8, nest=3, lens=3, union=3, maybe=2, magic=2, wide=2, con=1, float=2, ceil=1, manyalt=1, odd=1, broad=1, longmag=1, slot=1, shared=1), 'kinds', 20000, kinds=7)],
        'C19': [Group(dict(general=14, large=2, huge=2, manyalt=2, nest=6, lens=7, cond=5, comp=3, union=8, magic=8, con=3, bulk=2, maybe=2, broad=2, giant=1, pack=1, longmag=1, slot=2, cases=1, shared=3, kin=10), 'pol:1,map:4,life:1', 30000, subs=True)],
        'C20': [Group(dict(manyalt=1, general=10, con=4, magic=4, lens=3, union=4, ceil=4, wide=3, maybe=2, broad=2, longmag=2, cases=2, slot=2, shared=2, kin=2, elems=1), 'pair', 40000, twins=True)],
        'C21': [Group(dict(general=10, nest=3, con=2, lens=4, cond=4, comp=3, union=4, maybe=3, wide=2, magic=3, float=2, tiny=2, odd=1, broad=1, pack=1, slot=2, cases=1, shared=2), 'hist:200,life:300,vast:6', 30000, kinds=3)],
        'C22': [Group(MAIN, 'pure:3,life:1', 30000)],
        'C24': [Group(dict(nest=29, odd=1, deep=6, general=6, large=2, union=4, broad=2, kin=6), 'nest:3,rd_mut:1,wr_bad:1', 40000, subs=True)],
        'C25': [Group(dict(general=10, large=1, nest=4, con=4, lens=4, cond=3, comp=3, union=5, maybe=4, wide=3, magic=3, ceil=1, float=2, bulk=1, tiny=1, manyalt=1, odd=2, broad=1, pack=1, longmag=1, cases=1, slot=1, shared=2, elems=2, kin=1), 'par', 20000),
                Group(dict(general=3, nest=2, con=1, lens=2, union=2, maybe=2, magic=1, comp=1, wide=1, odd=1, elems=1), 'par', 4000, flags=TSAN, env=TSAN_ENV, label='tsan', probe=TSAN_PROBE)],
    }.get(prop)
