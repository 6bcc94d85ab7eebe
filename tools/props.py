#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the long texts stay readable)."""
import json, os
H=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SIM="SmartCache/sim/cache/"
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=()):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),
      why_tests_cant=why,anchors=dict(files=files,
        state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=None)))

p("C01","Recency caches evict the least recently used files",
 "In a cache that orders its files by recency of use (lru, random_lru, the dataset verifier and the weight function cache) the files removed to make room are always the ones whose last use (admission or hit) is oldest: every file that stays was used after every file that is removed. The order in which the cache lists its files, from the first to be evicted to the last, is exactly the order of their last use, after any number of hits, admissions, evictions and single removals.",
 ["inputs","histories"],"every sequence of requests, evictions, clears and queue operations, any number of files",
 "The queue tests use fixed lists or check only lengths and membership under random actions; the cache-level LRU tests do not pass. None compares the order after interleaved hits and evictions.",
 [SIM+"queue/lru.go",SIM+"simpleCache.go"],[("LRU.insert/update/remove/removeWorst with a lazily repaired index",SIM+"queue/lru.go"),("SimpleCache.Free",SIM+"simpleCache.go")],
 ["Dumps(true) FILES records, worst first","queue.GetFromWorst","queue.GetWorstFilesUp2Size"],
 [("queue","file names, worst first",SIM+"queue/lru.go"),("lastIndex","last known position of a file",SIM+"queue/lru.go")])
p("C02","LFU caches evict the least frequently used files",
 "In an lfu cache the files removed to make room always have the lowest request counts: no file that stays has been requested fewer times than a file that is removed, and among files with equal counts the one that reached that count first goes first. The listing order of the files, from the first to be evicted, is by request count and then by the time that count was reached, and stays so through hits, admissions, evictions and single removals.",
 ["inputs","histories"],"every sequence of requests, evictions, clears and queue operations",
 "The LFU tests check membership and lengths, and one fixed order; ties, emptied frequency classes and evictions which span several classes are not compared with anything.",
 [SIM+"queue/lfu.go",SIM+"simpleCache.go"],[("per frequency lists and the ordered list of frequencies",SIM+"queue/lfu.go")],
 ["Dumps(true) FILES records","queue.GetFromWorst","queue.GetWorstFilesUp2Size","queue.Get"],
 [("orderedValues","frequencies in increasing order",SIM+"queue/lfu.go"),("queue","files of each frequency, oldest first",SIM+"queue/lfu.go")])
p("C03","Size and weight ordered queues evict in the order of their key",
 "A sizeBig cache always evicts the biggest files first and a sizeSmall cache the smallest first; among files of the same size the one used longest ago goes first. The listing order is that order at every moment, and the weight ordered queue orders its files by increasing weight in the same way, also when the key of a file changes on an update.",
 ["inputs","histories"],"every sequence of requests, evictions, clears and queue operations, any sizes and weights",
 "The tests of these queues check one fixed list per queue; equal keys, changed keys and evictions over several keys are not covered, and the random-action test covers only LRU and LFU.",
 [SIM+"queue/genericF.go",SIM+"simpleCache.go"],[("QueueBaseFloat with getFeature/getInsertIdx/getIndex2Remove",SIM+"queue/genericF.go")],
 ["Dumps(true) FILES records","queue.GetFromWorst","queue.GetWorstFilesUp2Size","queue.Get"],
 [("orderedValues","keys, worst first",SIM+"queue/genericF.go")])
p("C04","Evictions happen only when needed and remove no more than needed",
 "A request evicts files only when the requested file is admitted by the policy, is not stored and does not fit in the free space. The evicted files then have a total size of at least the size of the requested file (or are all the files of the cache), and without the last of them in eviction order the total would be smaller than that size. A hit, a refused request or a request that fits removes nothing, and a file that fits after that eviction is stored.",
 ["inputs","histories"],"every sequence of requests over any capacity and file sizes, with watermarks off",
 "The cache-level tests that fill a cache fail at this commit and check only final counters of one history.",
 [SIM+"simpleCache.go",SIM+"randomCache.go",SIM+"weightFun.go",SIM+"lruDatasetVerifier.go",SIM+"queue/lru.go",SIM+"queue/lfu.go",SIM+"queue/genericF.go",SIM+"queue/none.go"],
 [("UpdatePolicy and Free",SIM+"simpleCache.go"),("getWorstFilesUp2Size",SIM+"queue/lru.go")],["Dumps(true) before and after each request","NumAdded, NumDeleted"])
p("C05","Occupancy is the total size of the stored files, within the capacity",
 "After every operation the reported size of the cache equals the sum of the sizes of the files it stores and never exceeds the configured maximum, and the reported capacity is that size in percent of the maximum. This includes evictions by watermarks, explicit frees, clears and restores from a dump.",
 ["inputs","histories","configurations"],"every cache type and configuration, every sequence of operations",
 "One failing test looks at the size of one LRU history; no passing test observes the size of a cache.",
 [SIM+"simpleCache.go",SIM+"randomCache.go",SIM+"weightFun.go",SIM+"lruDatasetVerifier.go",SIM+"aiNN.go"],[("size updates in UpdatePolicy, Free, ClearFiles, Loads",SIM+"simpleCache.go")],["Size, GetMaxSize, Capacity, Dumps(true)"],
 [("size","occupancy in MB",SIM+"simpleCache.go"),("files","stored files",SIM+"simpleCache.go")])
p("C06","A request hits exactly when the file is stored, and only it can enter",
 "A request counts as a hit exactly when the requested file was stored before it, and as a miss otherwise. The only file that can enter the cache during a request is the requested one; a file bigger than the whole cache is never stored, and in the caches without admission rule (lru, lfu, sizeBig, sizeSmall) every other missed file is stored. The reported outcome (added or not) and the number of files agree with the set of stored files.",
 ["inputs","histories","configurations"],"every cache type, every sequence of requests",
 "The passing tests never drive a cache; the failing ones check one or two final counters.",
 [SIM+"base.go",SIM+"simpleCache.go",SIM+"randomCache.go",SIM+"weightFun.go",SIM+"lruDatasetVerifier.go"],[("GetFile: Check, BeforeRequest, UpdatePolicy, AfterRequest",SIM+"base.go")],["GetFile result","NumHits","NumFiles","Dumps(true)"])
p("C07","Counters and data volumes account for every request exactly once",
 "Each request that is not redirected raises the number of requests by one and the data read by the size of the request, charging it to hits or to misses according to the outcome; an admission raises the number of added files and the data written by the size of the file, and every evicted file raises the number of deleted files and the deleted data by its size. Hence hits + misses = requests, data read on hit + on miss = data read, hit rate = hits in percent of requests, weighted hit rate = hit rate times data read on hit, and no other operation changes these values.",
 ["inputs","histories","configurations"],"every cache type and every history, over every statistics period",
 "Only failing tests look at counters, after one history, and never at volumes charged to hits and misses or at evictions.",
 [SIM+"simpleCache.go",SIM+"base.go"],[("BeforeRequest/AfterRequest/Free counters",SIM+"simpleCache.go")],["NumRequests, NumHits, NumAdded, NumDeleted, DataRead, DataReadOnHit, DataReadOnMiss, DataWritten, DataDeleted, HitRate, WeightedHitRate"])
p("C08","CPU efficiency figures are the stated averages of the requests",
 "Over a statistics period the upper (lower) bound is the mean CPU efficiency of the requests with a non zero efficiency served with protocol 1, local (0, remote), and the bound difference is 19 for region it, 10 for region us, 0 for any other named region and, without a region, upper minus lower bound when both exist and it is positive. A hit contributes its efficiency, increased by the difference if remote; a miss contributes its efficiency, decreased by the difference if local; requests with efficiency zero or another protocol contribute zero. The CPU efficiency, hit efficiency and miss efficiency are the averages of these contributions over all requests, hits and misses.",
 ["inputs","histories","configurations"],"every sequence of requests with any protocol, efficiency and region",
 "No test looks at any CPU efficiency figure.",
 [SIM+"simpleCache.go"],[("AfterRequest, CPUEffBoundDiff",SIM+"simpleCache.go")],["CPUEff, CPUHitEff, CPUMissEff, CPUEffUpperBound, CPUEffLowerBound"])
p("C09","Free space statistics sample every request",
 "Over a statistics period the average free space is the mean, and the standard deviation the sample standard deviation, of the free space left after each non redirected request (before any watermark clean-up). Clearing the statistics starts a new sample; redirected requests and other operations add nothing.",
 ["inputs","histories"],"every sequence of requests and clears",
 "No test looks at the free space statistics.",
 [SIM+"simpleCache.go"],[("dailyfreeSpace, sumDailyFreeSpace",SIM+"simpleCache.go")],["AvgFreeSpace, StdDevFreeSpace"])
p("C10","Watermarks keep the occupancy between the two marks",
 "With watermarks on, whenever a request leaves the occupancy at or above the high watermark the cache evicts, in eviction order, just enough files to bring it down to the low watermark or below, so that no request ends with the occupancy at or above the high watermark unless the low one equals it. Below the high watermark, or with watermarks off, no such clean-up happens.",
 ["inputs","histories","configurations"],"every pair of watermarks and every history",
 "No test enables watermarks.",
 [SIM+"simpleCache.go"],[("CheckWatermark and Free(percentage)",SIM+"simpleCache.go")],["Capacity, Dumps(true) after each request"])
p("C11","Redirection starts at 95% of the bandwidth and leaves the cache alone",
 "With redirection on, a missed request is redirected exactly when the data read on misses in the current statistics period is at least 95% of the daily bandwidth (10.8 million MB per Gbit); hits are never redirected and with redirection off nothing is. A redirected request changes only the redirected count, the redirected volume (by its size) and the miss-after-delete count: no file, file statistic, request counter or other figure changes. The bandwidth usage is the data read on misses in percent of the bandwidth.",
 ["inputs","histories","configurations"],"every bandwidth, every history",
 "No test enables redirection.",
 [SIM+"simpleCache.go",SIM+"base.go"],[("CheckRedirect",SIM+"simpleCache.go"),("GetFile",SIM+"base.go")],["GetFile result, NumRedirected, RedirectedSize, BandwidthUsage, Dumps(true)"])
p("C12","Per-file statistics follow the request history of the file",
 "For every tracked file, each cache but the infinite one keeps the size of its last request, the number of requests since it is tracked split in hits and misses, the times of its first and last request, the times of its last 32 requests, the request count of the cache at its last request and the distance to the one before. A request changes the statistics of the requested file only.",
 ["inputs","histories"],"every sequence of requests, including more than 32 requests of one file",
 "TestCreateStats checks a single creation; repeated requests, the ring of times and the tick arithmetic are not covered.",
 [SIM+"files/stats.go",SIM+"simpleCache.go"],[("GetOrCreate, UpdateStats",SIM+"files/stats.go")],["Dumps(true) STATS records"])
p("C13","Old statistics are purged, never those of stored files",
 "After a request whose time is at least the purge step after the time of the previous purge (or of the first request), the statistics of exactly those files which are not stored and were last requested at least the maximum age ago are forgotten. No statistics disappear at any other time (but a full clear), a stored file always keeps its statistics, and clears do not restart the purge period.",
 ["inputs","histories","configurations"],"every step and age and every history",
 "No test reaches the purge.",
 [SIM+"files/stats.go",SIM+"simpleCache.go"],[("Dirty, Purge",SIM+"files/stats.go")],["Dumps(true) STATS records"])
p("C14","Misses on just evicted files are counted once",
 "The miss-after-delete figure counts the requests, redirected ones included, that missed a file removed by the most recent eviction round since that round. Reading it returns everything counted since the previous reading, each miss exactly once, over any number of eviction rounds.",
 ["inputs","histories"],"every interleaving of requests, evictions and readings",
 "No test reads the figure.",
 [SIM+"files/stats.go",SIM+"simpleCache.go"],[("AddDeletedFileMiss, IncDeletedFileMiss, ClearDeletedFileMiss, GetTotDeletedFileMiss",SIM+"files/stats.go")],["GetTotDeletedFileMiss"])
p("C15","Clearing resets exactly what it names",
 "Clearing the statistics sets every counter, volume, efficiency and free space figure to its initial value and leaves the stored files, the occupancy and the per-file statistics alone. Clearing the files empties the cache, keeps counters and tracked files and restarts their recency; clearing everything does both and forgets every per-file statistic. A cleared cache then behaves like a new one with the same remaining contents, except that the purge period of the statistics goes on.",
 ["inputs","histories"],"every history before and after the clear, for every cache type",
 "Clear is only called before a failing test; no passing test compares states around it.",
 [SIM+"simpleCache.go",SIM+"files/stats.go"],[("Clear, ClearFiles, ClearStats",SIM+"simpleCache.go")],["all figures and Dumps(true) before and after"])
p("C16","A dump restores a cache which behaves as the original",
 "Loading a dump with files and statistics into a new cache of the same type and configuration gives the same stored files in the same eviction order, the same occupancy and the same per-file statistics and weights. From then on the restored cache answers every request as the original would (random generators, request distances and the purge period start anew), and can be dumped and restored again; dumping changes nothing in the cache that is dumped.",
 ["inputs","histories","crash_points"],"every history before and after the dump, every cache type",
 "The two dump tests fail at this commit; none checks the behaviour after a restore.",
 [SIM+"simpleCache.go",SIM+"weightFun.go",SIM+"aiRL.go",SIM+"aiNN.go"],[("Dumps, Dump, Load, Loads",SIM+"simpleCache.go")],["Dump, Load, Loads, then all figures and Dumps(true)"])
p("C17","Random caches decide admissions from the seed only",
 "A random cache draws one number per miss that is not redirected, and none on hits or redirected requests; the k-th such miss is admitted exactly when the k-th number of the generator started with the configured seed is at least one half, whatever the requested files are. Two runs with the same seed and the same requests on a random_lru cache are identical, and hits behave as in the underlying cache.",
 ["inputs","histories","configurations"],"every seed and every sequence of requests",
 "No test uses a random cache.",
 [SIM+"randomCache.go"],[("UpdatePolicy with its own generator",SIM+"randomCache.go")],["GetFile result, Dumps(true)"])
p("C18","The weight function cache admits files up to the mean weight",
 "In a weight function cache the weight of a file, after each of its requests, is the configured function (additive, additive exponential, multiplicative) of its request count, size and mean age in minutes of its last 32 requests, and a missed file is admitted exactly when its weight does not exceed the mean weight over all tracked files and it can fit. The reported mean is always that of the tracked files, also after purges, clears and restores.",
 ["inputs","histories","configurations"],"every function, parameters and history",
 "The weight function tests fail at this commit and look at one final state.",
 [SIM+"weightFun.go",SIM+"files/stats.go",SIM+"functions/functions.go"],[("UpdateWeight, GetWeightMedian",SIM+"files/stats.go"),("WeightFun.UpdatePolicy",SIM+"weightFun.go")],["ExtraStats, Dumps(true) STATS weights, GetFile result"])
p("C19","An infinite cache keeps every file it has seen",
 "An infinite cache stores every requested file and never evicts on requests (watermarks off): a request hits exactly when the file was requested before. Its maximum size grows by the size of each stored file, and its occupancy is the total size of the distinct files.",
 ["inputs","histories"],"every sequence of requests",
 "No test uses the infinite cache.",
 [SIM+"infiniteCache.go",SIM+"queue/none.go"],[("InfiniteCache.UpdatePolicy",SIM+"infiniteCache.go")],["all figures and Dumps(true)"])
p("C20","The dataset verifier stores only files of the dataset",
 "A dataset verifier cache admits a missed file exactly when the file is in its dataset and can fit, and never stores any other file; requests outside the dataset are misses which evict nothing. For files of the dataset it behaves as an lru cache.",
 ["inputs","histories","configurations"],"every dataset and every sequence of requests",
 "No test uses the dataset verifier.",
 [SIM+"lruDatasetVerifier.go"],[("LRUDatasetVerifier.UpdatePolicy",SIM+"lruDatasetVerifier.go")],["GetFile result, Dumps(true)"])
p("C21","The choice log tells the whole story of the cache",
 "With logging on, the log of an lru, lfu, size or random_lru cache has one HIT or MISS row per request, then one REDIRECT row if it was redirected, or one ADD row if the file was stored, preceded by one FREE row and one DELETE row per evicted file, in that order; each row carries the tick, the occupancy after the event, the file, its size, request count and distance from the previous request. Replaying the rows gives the stored files at every moment, and no row is lost when the simulation ends.",
 ["inputs","histories","schedules"],"every history; every scheduling of the log writer",
 "No test enables the log.",
 [SIM+"simpleCache.go",SIM+"randomCache.go"],[("toLogBuffer, log writer goroutine, flushAndCloseLog",SIM+"simpleCache.go")],["simulationLogFile.csv.gz"])
p("C22","Daily rows report each day of the simulated window once",
 "A simulation starts a new day at the first record at least 23 hours after the record that started the current one; at that moment, if the window is within the simulated range, it writes one row with the figures accumulated by the requests of the finished day, and all daily figures restart from zero; the last, unfinished day has no row. Windows are groups of that many days, records before the start window are skipped without touching the cache and the simulation ends at the first record of the stop window.",
 ["inputs","histories","configurations"],"every sequence of record times, every window size, start and stop",
 "No test runs a simulation.",
 [SIM+"simulation.go"],[("Simulate main loop",SIM+"simulation.go")],["simulation results csv"])
p("C23","Every record is counted in exactly one outcome",
 "A simulation classifies every record it consumes in the window range: filtered when its job failed or a configured filter rejects it, invalid when its CPU efficiency is not a number within 0 and 100, otherwise it is requested to the cache, once, in order, and may be redirected. The run statistics count the records, the skipped, filtered, invalid and redirected ones and the redirected volume exactly, and each region filter accepts exactly the data types, file types and sites it documents.",
 ["inputs","configurations"],"every record and filter combination",
 "No test runs a simulation or a filter.",
 [SIM+"simulation.go","SmartCache/sim/main.go"],[("Simulate record selection and Filter implementations",SIM+"simulation.go")],["run statistics json, results csv"])
p("C24","Datasets are read completely, in order, whatever their layout",
 "Reading a dataset yields every record of the file exactly once, in order, with each field taken from the column with its name, whether the columns are in the standard order or permuted (also with additional columns) and whether the file is plain or gzip compressed; sizes are converted from bytes to MB. Reading a folder yields the records of all its csv, gz and gzip files in file name order and ignores other files.",
 ["inputs","configurations"],"every permutation of columns, layout and folder content",
 "No test reads a dataset.",
 [SIM+"simulation.go"],[("OpenSimFile, OpenSimFolder, getHeaderIndexes, recordGenerator",SIM+"simulation.go")],["the channel of records"])
p("C25","A simulation is the replay of its requests on the cache",
 "The results of a simulation are those obtained by requesting the selected records directly to a new cache of the same configuration: same daily rows, same final cache. A simulation that dumps its cache and a second one that loads the dump continue as one simulation over both datasets would, and the cold start options start from no files, or from no files and no statistics.",
 ["inputs","histories","configurations","crash_points"],"every dataset, cut point and configuration",
 "No test runs a simulation.",
 [SIM+"simulation.go",SIM+"simpleCache.go"],[("Simulate, Dump, Load, Loads, ClearFiles, Clear",SIM+"simulation.go")],["results csv, dump file"])
p("C26","A cache is a function of its configuration and its request history",
 "A cache of any kind answers every request, and changes its stored files, their order, the occupancy, all counters and volumes and all per-file statistics, exactly as the reference model of its policy prescribes; the same configuration, seed and history always give the same behaviour. Nothing else (wall clock time, earlier caches of the process, other caches alive at the same time) has an influence.",
 ["inputs","histories","configurations"],"every cache type (the plain random cache chooses its victims freely), every configuration and history",
 "The tests compare a few counters after one history of one configuration.",
 [SIM+"base.go",SIM+"simpleCache.go",SIM+"files/stats.go"],[("GetFile and the policies",SIM+"base.go")],["all figures and Dumps(true) after each operation"])
exec(open(os.path.join(H,"tools","props_more.py")).read()) if os.path.exists(os.path.join(H,"tools","props_more.py")) else None
with open(os.path.join(H,"properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
for x in P:
    assert len(x["title"])<=80,(x["id"],len(x["title"]))
print(len(P))
