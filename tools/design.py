import json,glob,os
old=open('/verif/DESIGN.md').read()
text = '''# Model-based verification of the smart-cache simulator with TLA+

## Language and shape

TLA+ with TLC 1.8, not Quint: the specification must be *bound* to the code by
reading long recorded executions (ndjson) and judging every step, and by
printing every transition of a model as a script for the real code; both are a
few lines with TLC and the CommunityModules (Json, IOUtils, `PrintT` of an
action), and TLC evaluates the sequence-heavy, implementation-shaped
definitions (eviction orders, rings of times, draws of a generator) directly.

The specification (spec/). `X.Model` is a model, `XMC` its exhaustive
exploration (which also prints every maximal path as a script), `XTrace` the
judge of recorded executions.

    Util, Order                shared operators; the order in which a kind of cache evicts
    QueueModel/MC/Trace        the queue package
    CacheModel/MC/Trace        the reference model of a cache: every operation as a function of
                               configuration, state and operation
    CacheProps                 the properties C04-C20, C26: one predicate per property on ONE STEP
                               (configuration, ghost, state before, operation, state after)
    CacheChecks                the ghosts of the observer and the choice of the predicate
    LogWriter                  the log channel and its writer goroutine, all interleavings
    SimModel/MC/Trace          a simulation: selection, filters, windows, days, dump/restore stages
    SimScript                  the operations on a cache a simulation consists of (for the twin of C32)
    SimAiTrace                 rows of a simulation with learning agents
    ReadModel/MC/Trace         data set files, columns, folders
    ConfigModel/MC/Trace       the simulator program: options, defaults, folders, overwriting
    AiConfig/AiConfigTrace     the options of learning caches
    AgentModel/MC/Trace        Q-learning agents and feature maps
    AiModel/MC, AiTrace        caches driven by agents: which calls, which files go, additions
    DataFileModel/MC/Trace     JSON data files (Python): what a file holds, what a reader answers; the MC
                               module is the reader's algorithm (position, last index, checkpoints)
    PyCacheModel/MC/Trace      the LRU cache of pySim
    AiLearn/AiLearnTrace       the eviction agent, call by call, with the numbers its generator gives

The machinery.

    harness/   the executor (Go, package main, added to the simulator's module by a build
               overlay; uses the exported API only; takes no decisions): main (caches), queue,
               sim (simulations and data sets), cmd (the program itself), agent, airl;
               pyexec.py does the same for what is written in Python
    checks/    lib (build, execute, run TLC, evidence, verdict), props (per property: which
               models, which histories), cachegen/simgen/cmdgen/agentgen/aigen (generators)
    tools/     writes properties.jsonl and MANIFEST.json

A check of property P does three things.

1. TLC explores the model for some configurations and operations, exhaustively
   up to a depth: P's predicate holds on every transition of the reference
   model, and the model's own invariants hold. Otherwise the specification is
   wrong: exit 2.
2. Every maximal path of that graph (sampled over a limit) and several hundred
   random histories (long, many files, all cache kinds, watermarks,
   redirection, purges, dumps, restarts) run on the code built from /repo's
   tree. After each operation the executor records everything observable: all
   figures, the stored files in eviction order with sizes (`Dumps(true)`), all
   file statistics, the answer, agents, rows, folders.
   An operation which does not end within 20 s (60 s for a simulation) or
   takes more than 6 GB is tried once more; if it happens again
   it is a violation, and no further histories are executed.
3. TLC reads the recording and evaluates P's predicate on each step: `FAIL`
   lines become the VIOLATION. The state before a step is the observed one, so
   predicates are independent: a bug that breaks C07 only is reported by C07
   only (and by C26, which compares the whole step with the reference model).

A panic, an exit or an operation which does not return in 20 s (twice) is a
violation of the property whose scenario was running. A recorded step on which
TLC cannot evaluate the specification (a figure of a kind the model has no
place for) is judged again alone; if the error repeats it is a violation ("no
step of the specification"), if not it is a note in the evidence. Failures of
TLC itself, of the build, of the executor or of memory are exit 2, never a
verdict. Every VIOLATION writes a replay (replays/*.json): the scenario with
the failing step.

All values are integers: sizes in units of 1/4 MB or 1 MB, CPU efficiencies in
quarters, times in seconds, so that the code's floating point sums are exact
and the figures can be compared exactly (averages and percentages to the last
printed digit); `frac` counts values that are not integers, which is a failure
of C05.

## How each property is decided

Bounds are those of the quick tier; thorough multiplies the histories by 10 to
20 and deepens the models by one or two steps.

| id | specification | what is explored |
|----|----|----|
| C01 C02 C03 | `CacheProps!OrderStep`, `QueueTrace` | QueueMC exhaustively per queue type, queue scripts with inserts/updates/removals/evictions, cache histories |
| C04 | `EvictionStep` | needless / too little / too much / not stored, per request and per `Free` |
| C05 | `OccupancyStep` | sum of sizes, maximum, capacity, after every operation incl. dump/restore |
| C06 | `MembershipStep` | hit iff stored, only the requested file enters, outcome |
| C07 | `AccountingStep` | every counter's increment |
| C08 | `CpuOk` over a ghost with the sums of the contributions | protocols, regions, zero efficiencies |
| C09 | `FreeOk` over the list of samples | mean and sample deviation |
| C10 | `WatermarkStep` | all pairs of watermarks incl. equal ones |
| C11 | `RedirectStep` | the 95%% threshold exactly, nothing else changes |
| C12 | `StatsStep` | fields of the requested file, all others unchanged; > 32 requests; times that go back |
| C13 | `PurgeStep` | steps and ages in hours, boundaries at exactly the step and the age |
| C14 | `MissStep` over a ghost | rounds, readings, redirected misses |
| C15 | `ClearStep`, `AfterClear` | each clear at any moment, then the reference behaviour |
| C16 | `RestoreStep`, `TwinStep` | restored figures; original and restored cache get the same requests |
| C17 | `RandomStep` | the draws of the generator are an input (list of coins), one per served miss |
| C18 | `WeightStep` | exact weights (times in multiples of 1920 s), mean, admission |
| C19 | `InfiniteStep` over the set of seen files | requests, dumps, clears |
| C20 | `DatasetStep` | files in and outside the data set, oversized ones |
| C21 | `LogStep` over the expected rows; `LogWriter` | every row of the log file; all scheduling of the writer in the model |
| C22 | `SimModel` (`Rec`, rows) | all data sets of 6 records over day boundaries x windows, random data sets of several weeks; rows compared field by field |
| C23 | `SimModel` (outcome counters, `Filter`) | all data sets over one record of each outcome; every combination of data type, file type, site, success and exit code for each filter |
| C24 | `ReadModel` | all permutations of up to 4 columns (+1 unknown) among the 25, random folders (names, compression, other files), files longer than the reader's buffer |
| C25 | `SimModel` with dumps, `SimMC!one` | stages of dump/restore/cold start; the model also carries the simulation that is never interrupted; recorded cache after each stage |
| C26 | `ReferenceStep` | the complete step equals `CacheModel.Operation` |
| C27 | `ConfigModel`, `ConfigTrace` | sequences of runs of the built program: present/absent options, wrong values, existing results; the recorded folder, rows and dump against the model |
| C28 | `AgentModel!AgentStep`, `AgentMC` | small agent exhaustively (exact rationals), random sequences of updates, steps, resets, unleash; exploration rate against a table of exp |
| C29 | `AgentModel` (places, states, printed table) | random feature maps with all kinds of features, values around all buckets |
| C30 | `AiModel!EvcStep` | AiMC: every choice of the agent left open; scripts and histories on the real cache: when called, which files may go, order, counts, groups |
| C31 | `AiModel!AddStep` | every decision recomputed from the table and the generator's draws, every table change from the remembered pairs |
| C32 | `SimScript`, `SimAiTrace` | SimModel turns each simulation into operations on a directly asked twin cache; rows, figures, agents must be equal |
| C33 | `AiConfig`, `AiConfigTrace` | random option sets of the program incl. spellings, defaults, missing maps; outcome, folder and behaviour |
| C34 | `AiLearn` (worlds), `AiLearnTrace` | the set of possible worlds of an eviction agent is followed through a history: every row of its log, every table entry |

| C35 | `DataFileStep`, `DataFileMC` | the reader's algorithm model checked against "the answer depends on the file only" for files of up to 4 records and all sequences of up to 4 reads, lists of the whole, reads begun and left, and checkpoints; these and random files (shapes, formats, several writers) and reads on the real reader |
| C36 | `PyGet`, `PyCacheMC` | all histories of 6 requests of 7 files (scripts), random histories |
| C37 | `TableStep`, `TableMC` | the table after any sequence of insertions, deletions, indexings, filters, pickling; every conversion of features and of request counts computed from the model's table, for new, empty and unknown values |
| C38 | `DatasetModel`, `StageMC` | StageMC: every schedule of processes and batches of a stage gives each valid input's output once; its schedules are forced on the real stage by stand-ins of process and queue; records, windows, merges, pipelines over local and HDFS files recomputed from the requests |
| C39 | `ClientStep`, `ClientMC` | every history of 5 operations with failing requests as scripts, random histories, on the real clients and command line against a stand-in of the servers that records each request |
| C40 | `Read`/`Whole`, `Measure`, `ProbeMC` | the one-pass reader and what can be said of a log as a whole agree on every log of 5-6 rows; each such log, logs written by the simulator itself (aiRL, lru, lfu, size caches) and random ones, in random trees of results, read back by the real `probe.results` with a stand-in for pandas; measures are exact (sizes are powers of two) |
| C41 | `AvroStep`, `AvroFileMC` | the reader's algorithm (descriptor between blocks, what the iterator has left of one, the counted length) checked against "the answer depends on the file only" for all files of up to 4 records in any blocks and all sequences of 5 (7) operations; these and random files (shapes, codecs, ways of writing) and reads on the real writer and reader over harness/miniavro.py, a small implementation of the Avro format that stands for fastavro |
| C42 | `SimDataStep`, `SimDataMC` | every history of 4 (5) maps made, made again, columns modified and data made, of three columns with ten operations, checked for the maps' own laws (numbers different and in range, rows with exactly one 1) and replayed; random tables (integers, quarters, truth values, words; up to 300 rows), maps (types, text, unknown values, buckets open or not, several columns at once), conversions and labels on the real reader; the stored map, the data and what is read back judged by `MapStep` and `DataStep` |

Why this reaches what the tests cannot: the tests look at a few figures after
one history; here every transition of the model within the bounds, and
thousands of long histories, are judged after every operation on everything
observable.

C34 is the deepest model: a *world* is everything an eviction agent remembers
and does not show (draws used, remembered choices per file, states of the last
call, misses of deleted files). The order in which the code visits its groups
follows Go's map order; the log tells it, and where the log leaves two orders
open the checker keeps both worlds. A history whose number of worlds exceeds
a bound would be given up ("LOST" in the evidence); with the present
generator none is.

## Known finding and repairs

See known_findings.txt: %d repairs. The C05 finding (a stored file requested
with another size) is not repaired: `UpdatePolicy` would have to re-evaluate
the occupancy on hits, possibly evicting on a hit, which is a change of
policy, not a small repair.

## Planted bugs

seeded/: each is confirmed (builds, passes the stable tests, its demo fails
with it and not without it). All are caught by the check of their property;
where a second check also reports, it is because the property is broken too.

| property | planted | needs |
|----|----|----|
%s

A mutation campaign (single token changes in the simulator's packages,
compiled and passing the tests, judged by the checks of the touched file)
supplements them; survivors so far were equivalent (e.g. the listing
direction used for debugging only, a panic message) or led to C32 and C34.

## False alarms met and what was done

- C27 once reported a run result that was still that of an earlier run while
  the sandbox was out of memory: the executor now sets the old files' times
  back before each run so that a rewrite is always seen, and an evaluation
  error of TLC counts only if it repeats.
- `random` evicts in map order: its victims are free in the model (any), only
  number and sizes are determined; `aiRL` visits its groups in map order.
- C27 alarmed now and then: the length of a results file varies by some bytes
  from run to run (times, memory), so that a run which found one of about 600
  bytes may or may not count as done, and the dump it was to write may be
  missing. What the run does follows from the length observed (it did before);
  if the dump to load is not there the history is not judged further.
- Demos and histories with file sizes that change between requests run into
  the C05 finding, so sizes are constant except in the scenario for it (and in
  C12, which looks at file statistics only).

## Quirks the specification follows (documented, not judged wrong)

- The same seed does not make `random` reproducible (map order), nor an aiRL
  cache with an eviction agent.
- Infinite caches with watermarks evict; the weight function and data set
  verifier caches write no ADD rows to the log.
- onK calls the agent after K+1 requests; a forced call is made twice with an
  addition agent; restoring gives both agents the common restart parameters;
  an agent that may not be unleashed still forgets its remembered choices;
  `AIRL.Clear` keeps the counters of the agents; a group of the largest share
  decides by the first of equal actions, except that action 0 is no candidate
  when three or more are equal.
- deleting one and deleting half/quarter take from opposite ends of a group.
- Numbers for string and boolean features are all 0 in `Features2Idxs`;
  features of files that a map lacks compare the first feature.
- Clear forgets the files of the last eviction round but keeps the misses
  counted on them until they are read.
- `Load` of a dump needs the results file of the run it continues.
- The folder name of weightFunLRU omits size, bandwidth and region; the
  bandwidth is rounded in folder names; an upper case alias of an eviction
  type gives a folder name without it; the test data set path is not made
  absolute; the default stop window 0 makes an empty simulation.
- The last, partial day of a simulation has no row.

## Not covered

- SmartCache/sim/pkg/.../neuralnet: not used by any cache of the simulator.
- SmartCache/plugin (Go and its Python twin), simService/aiService (gRPC):
  need packages that are not in the module cache or use import paths that no
  longer exist; they do not build here.
- qLearning_smartCache: an abandoned prototype with relative imports (does not
  build as a module) whose results depend on map order.
- Of Probe: the plots and the dashboard, the converter (its modules import a
  function that does not exist, so they do not start), the analyzer, qTable;
  scripts: numeric libraries that are not installed here. C40 reads results back with a stand-in for the parts of
  pandas that are used (harness/minipd.py); names of results that differ only
  by repeating the common prefix, folders of the same name in different
  places, and filters naming a component twice are not generated.
- What the stand-ins of C37-C39 replace (harness/pyexec.py): Spark (partitions run one after another in any order), the
  process and queue of a stage (scheduled by the scenario), requests with an
  HttpFS and an ElasticSearch server, HDFS, spinners and progress bars. Stages
  without any output are not generated; the classes of CMSRecordTest0Stage are
  compared where the mean is exact (request counts that divide 64).
- C41 writes and reads Avro through harness/miniavro.py instead of fastavro
  (not installed); it follows fastavro 1.0 in when a file is appended to, which
  schemas are refused, and how records are kept in blocks. Records a deduced
  schema cannot hold (lists and maps of dictionaries, integers over 64 bits,
  records that differ in shape from the first) are only written with a schema
  given.
- C42 reads its tables through harness/minipd.py and keeps its data in
  harness/mininp.py instead of pandas and numpy; columns asked for twice,
  tables whose rows are not numbered from 0, floats that share their text of
  two decimals, and buckets which are not ascending are not generated. Nothing
  is demanded of the data kept after a conversion that failed.
- DataManager/agent: the command `del` does nothing. DataManager/agent/converter:
  two functions of a line each which the existing tests settle.
- AI caches whose model is asked over gRPC (aiNN) are covered as caches
  without admission (no server), i.e. their queue, figures, dumps and logs.
- Concurrency: the only concurrency in the simulator is the log writer
  (LogWriter) and the progress display; each cache is used by one goroutine.
'''
rows=[]
for d in sorted(glob.glob('/verif/seeded/*/meta.json')):
    m=json.load(open(d)); rows.append((m['property'], d.split('/')[-2], m['needs']))
rows.sort()
nf=sum(1 for l in open('/verif/known_findings.txt') if l.startswith('fixed'))
open('/verif/DESIGN.md','w').write(text % (nf, '\n'.join('| %s | %s | %s |'%r for r in rows)))
