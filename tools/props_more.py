p("C27","A configuration file fully determines the run of the simulator program",
 "Running the simulator program on a configuration file does the simulation the file describes: cache type, size in M, G, T or P (powers of 1024), bandwidth, redirection, watermarks, statistics ages, seed, weight function, window, dump and restart options are those written in the file, and every option left out has its default (100T, 10 Gbit, no redirection, no watermarks with marks 95 and 75, ages 6 and 7 days, seed 42, FuncAdditiveExp 1 1 1, windows of 7 days from 0 to 0, no dump but with files and statistics, no restart, hot start, no overwriting, no region filter). Region us and it, and no other, select their filters and CPU figures. Results, run statistics and dumps go to outputFolder/run_full_normal/<type>_<size><UNIT>_<bandwidth>Gbit_<region> (weightFunLRU_<function>_<alpha>_<beta>_<gamma> for the weight function cache) of that configuration only; results of more than 600 bytes are left untouched, and the run skipped with success, unless overwriting is on; a restart keeps the previous results under another name. An unknown cache type, size unit or weight function, a missing feature map of an aiNN cache or a missing dataset end the program with an error and leave all results as they were. Relative paths are relative to the configuration file.",
 ["configurations","histories"],"every combination of options, given or left out, and every sequence of runs in the same output folder",
 "No test runs the program or reads a configuration.",
 ["SmartCache/sim/main.go",SIM+"simulation.go"],[("configureViper, simCommand","SmartCache/sim/main.go"),("Create, InitInstance, GetCacheSize, Simulate",SIM+"simulation.go")],["result folders, csv, run statistics, dumps, exit status"])
AIDIR="SmartCache/sim/cache/ai/"
p("C28","The learning agents keep the rules of Q-learning",
 "An agent (for additions or for evictions) starts with a table of zeros, the configured exploration rate and empty counters. Updating the value of an action in a state with a reward and a next state sets it to old + 0.9 (reward + 0.5 best value of the next state - old) and changes no other value; the agent's value function is the sum of the rewards since its last reset. The best action of a state is one of those with the largest value, and its value is that one. The exploration rate is 0.1 + 0.9 exp(-decay k) after k steps, whatever value was configured for its start, makes no step below 0.1, and unleashing it (only if allowed) takes it back to 1 or to the first step not above a given value. A key's memory holds its last 32 choices in order (all of them if saved without limit), is emptied when remembered or forgotten, and asking for the memories of an unknown key, or updating an action the agent does not have, panics and changes nothing. Coverage is the share of actions and states with a value. A saved and restored agent has the same table, rate, step and value function.",
 ["operations","histories","agents"],"every history of updates, rate steps, memories, resets and restores",
 "No test of the package makes an agent.",
 [AIDIR+"qlearn/qlearn.go"],[("UpdateTable, GetBestAction, UpdateEpsilon, UnleashEpsilon, SaveMemory, Remember, GetCoverage",AIDIR+"qlearn/qlearn.go")],["table, exploration rate, step number, value function, memories of an agent"])
p("C29","Feature maps number buckets and states one to one",
 "A feature map file (.json, or gzipped) gives exactly its features, each with its type, its values in order, one more unlimited value if it is open on the right, and its mark as a feature of files. The place of a value is the first bucket that is not below it for numbers, the equal value for strings and booleans, and -1 if there is none. The states of an agent are all the combinations of places, once each; a combination's number is its place in that list, computed as a mixed radix number whose last feature counts ones, whatever order the features take. A printed table has one row per state with the values of its actions and the texts of its buckets. Restoring a saved agent keeps the order, values and numbers of its features.",
 ["maps","values","states"],"every feature map, value and combination",
 "The tests of the package use one fixed map.",
 [AIDIR+"featuremap/featuremap.go",AIDIR+"qlearn/qlearn.go"],[("Populate, Index, ToString",AIDIR+"featuremap/featuremap.go"),("QTable.Init, FeatureIdxs2StateIdx, Features2Idxs, QTableToString",AIDIR+"qlearn/qlearn.go")],["features, values, places, weights, states, printed tables"])

p("C30","A cache with an eviction agent loses files only by the agent's actions",
 "A cache of type aiRL with an eviction agent groups the stored files by the features of files (size, number of requests, recency). The agent is called once for every missing file that is to be stored and does not fit (once for each of its two attempts with an addition agent), never then if the eviction type is none and there is no addition agent; with onK after every K+1 served requests, counted over clears; with onDayEnd whenever the figures are cleared. A call takes one action for each group that has files: all of them, the half or the quarter (at least one) last requested, the one requested longest ago, or none. Nothing else removes a file; the file comes in exactly if it fits after the calls; a greedy agent takes an action of largest value. The figures count the calls, those of them that are punished (missing room with onK, onDayEnd), every action, and mean and deviation of the number of groups. Without an eviction agent the cache evicts least recently used files as LRU does. Contents, sizes, request and byte counters are as for every cache; agents start with the configured rates, and survive dump and restore with the same tables, keeping the groups of the restored files.",
 ["request histories","configurations","agents"],"every feature map, eviction type, seed and history of requests, clears and restores",
 "No test creates an aiRL cache; the outcome depends on the whole history, seed and feature maps.",
 [SIM+"aiRL.go",SIM+"aiRLCatStateManager.go"],[("callEvictionAgent, UpdatePolicy, AfterRequest, ClearStats, Dumps, Loads",SIM+"aiRL.go")],["resident files, counters, action and call figures, dumps of an aiRL cache"])
p("C31","An addition agent learns from, and decides by, what the requests tell it",
 "A cache of type aiRL with an addition agent takes one choice, store or not, for each served miss, and none for a hit; a file is never stored against the choice. The state is given by the features of the request (hit, size, number of requests, time since the last one, occupancy, hit rate) as they are at the request; with the exploration rate as probability, drawn from the generator of the configured seed, the choice is drawn, otherwise it is the one with the larger value (not storing if equal). The table changes only by the rewards of the remembered choices of the requested file, each once, in order: with SCDL all choices since its last request, rewarded by size according to bandwidth and written data; with SCDL2 all but the two latest, +1 for a hit, -1 for a miss and -2 for a miss after not storing. Each reward makes one step of the exploration rate and is added to the value function. After eight requests in a row (at new times, at a low rate) with a falling value function the rate is set back. Clears leave the agent alone; after a restore it has the same table and new parameters. The printed figures are those of the agent.",
 ["request histories","configurations","agents"],"every feature map, seed and history of requests, clears and restores",
 "No test creates an aiRL cache.",
 [SIM+"aiRL.go",AIDIR+"qlearn/qlearn.go"],[("getState4AdditionAgent, delayedRewardAdditionAgent, BeforeRequest, UpdatePolicy",SIM+"aiRL.go")],["choices, table, rate, value function of the addition agent of an aiRL cache"])
p("C32","Simulating a learning cache is asking it day by day and reporting its agents",
 "A simulation with a cache of type aiRL leaves the same cache behind, files, figures, file statistics and agents, as asking a cache of the same configuration directly for the requested records, in order, with its figures cleared where a day ends. Each row holds the figures the cache shows at the end of that day, in the order of its header, and fifteen more of the agents: the exploration rates of the addition and the eviction agent, their value functions, the calls of the eviction agent and those of them which are punished, mean and deviation of the number of groups, and how often each action (store, not store, delete all, half, quarter, one, not delete) was taken that day. A restarted simulation continues with the agents' tables and the exploration rate and decay given for the restart. At its end a simulation writes the tables of its agents, and of no agent it does not have, one row per state with the values of the actions and the state's features.",
 ["datasets","configurations","request histories"],"every dataset, agent configuration and chain of restarts",
 "No test simulates an aiRL cache.",
 [SIM+"simulation.go",SIM+"aiRL.go"],[("Simulate",SIM+"simulation.go"),("ExtraOutput, Dumps, Loads",SIM+"aiRL.go")],["csv rows, tables, dumps and the cache after a simulation"])
p("C33","A configuration file fully determines a simulation with learning agents",
 "Running the simulator program on a configuration of an aiRL cache simulates the cache its options describe: the reinforcement learning type SCDL or SCDL2 (also in lower case), SCDL2 if left out; the agents for which a feature map is given, the eviction agent only with SCDL2; the eviction type onK, onDayEnd, onFree or none, in any of their spellings, onK if left out, called every 32 requests unless k is given; the seed; for each agent the exploration rate at the start and its decay, its own ones if given, else the common ones of both, else 1 and the default; and whether it may be unleashed, by its own or the common option. A restart gives both agents the common rate and decay. Results, tables, run statistics and dumps go to the folder aiRL_<type>-<eviction type>_<size><UNIT>_<bandwidth>Gbit_<region>, without eviction type for SCDL, of that configuration only. An unknown type, SCDL without a map for its addition agent, an unknown eviction type, or a map that does not exist end the program with an error and leave all results as they were. Otherwise everything is as for the other caches.",
 ["configurations","histories"],"every combination of options, given or left out, and every sequence of runs in the same output folder",
 "No test runs the program on an aiRL configuration.",
 ["SmartCache/sim/main.go",SIM+"simulation.go",SIM+"aiRL.go"],[("simCommand","SmartCache/sim/main.go"),("Create, InitInstance",SIM+"simulation.go"),("Init",SIM+"aiRL.go")],["result folders, csv, tables, run statistics, dumps, exit status"])
p("C34","An eviction agent decides by its table, and learns what its decisions led to",
 "At a call the eviction agent of an aiRL cache decides once for each group that has files, as they are at the call: it draws from the generator of the configured seed whether to explore, by its exploration rate; if so the action is drawn, otherwise it is one of largest value for the group's state (places of size, number of requests and recency of the group, of the share of the cache it takes, of occupancy and hit rate). The log shows a row for each file deleted or kept, group by group, with the occupancy left, and before it the row of the call, if it is periodic, for free space or forced. It learns: a forced call with onK or onDayEnd takes 1 from the value of not deleting, in the state of every file kept since the last forced call, towards each state of the last call with the same size and recency and as many requests or more; when room was missing, each state of the last call has its action rewarded, 1 if the file fits now, otherwise 1 for deleting and -1 for not deleting; and each request of a file rewards, for every two consecutive decisions about that file, the former, towards the state of the latter: after a hit 1 if it deleted, 3 if it kept and the occupancy at the latter is not larger, else 2; after a miss -1 if it kept, -3 if it deleted and the occupancy at the latter is larger, else -2. Every reward follows the learning rule, makes one step of the exploration rate while it is above 0.1, and is added to the value function. Nothing else changes table, rate or value function, but the setting back of a rate after eight falling value functions. The misses of the files deleted by the last call are counted until they are asked for.",
 ["request histories","configurations","agents"],"every feature map, eviction type, seed and history of requests, clears and restores",
 "No test creates an aiRL cache; what is rewarded depends on the whole history.",
 [SIM+"aiRL.go",SIM+"aiRLCatStateManager.go",AIDIR+"qlearn/qlearn.go"],[("callEvictionAgent, delayedRewardEvictionAgent, punishEvictionAgentOnForcedCall, rewardEvictionAfterForcedCall, BeforeRequest",SIM+"aiRL.go"),("GetStateFromCategories",SIM+"aiRLCatStateManager.go")],["log, table, exploration rate, value function and files of an aiRL cache, call by call"])
p("C35","A JSON data file gives back what was written to it, however it is asked for",
 "A data file (DataManager) written by JSONDataFileWriter holds the records given to it in their order: dictionaries, strings of JSON, lists or generators of them, in one or several calls, by one writer or by one after another which appends; plain, .gz or .bz2, or in a stream in memory. What is not a record is refused with an exception. A reader answers from the file alone, whatever was read before and whatever checkpoints (index and its true position) were added: its length is the number of records; an index from 0, or negative from the end, gives that record, and an exception outside; a slice from a to b gives the records a to b-1 which exist, every step-th, and downwards from a to b+1 if a is larger; an iteration started anew gives all records in order; start_from gives those from an index on. A DataFile around a compressed file, a stream or a writer answers the same, before and after pickling, and gives chunks of the size asked for (the last one shorter) which are together all records in order.",
 ["files","sequences of operations"],"every sequence of records of any shape and size, format, and sequence of reads",
 "The reader keeps a position, the last index read and checkpoints between calls; no test reads a JSON data file.",
 ["DataManager/collector/datafile/json.py","DataManager/collector/datafile/utils.py","DataManager/collector/api.py"],[("JSONDataFileWriter, JSONDataFileReader","DataManager/collector/datafile/json.py"),("gen_increasing_slice, get_or_create_descriptor","DataManager/collector/datafile/utils.py"),("DataFile","DataManager/collector/api.py")],["the records, lengths and exceptions a reader gives"])
p("C36","The LRU cache of pySim keeps the files used last and its figures add up",
 "The LRU cache written in Python (pySim) holds, after any sequence of requests for files of constant sizes: a requested file that is stored is a hit and becomes the most recently used; one that is not is a miss and is stored if it is not larger than the cache, as the most recently used, after the least recently used files went, as few as it takes to make room; one larger than the cache is not stored and makes no file go. The hit rate is hits over requests (0 without hits), the data read is the sum of the sizes requested, the data written of those stored, the data deleted of those that went, the size what is stored. Every file counts its own hits and misses.",
 ["request histories"],"every cache size, set of files and sequence of requests",
 "No test uses this cache; recency order and figures depend on the whole history.",
 ["SmartCache/pySim/cache.py"],[("LRU.get, update_policy, after_request, hit_rate","SmartCache/pySim/cache.py")],["the files which are stored, the hit rate, the figures, the statistics of the files"])
DS="DataManager/collector/dataset/"
DF="DataManager/collector/datafeatures/"
p("C37","A support table numbers its values, and converts by these numbers",
 "A SupportTable (DataManager) holds, for each table and key, the values inserted there (with the unknown value, unless not wanted), each once. Generating the indexes, at any time and as often as wanted, gives the values of every table and key that were inserted until then the numbers 0 to n-1 in the order of their lower-case texts; until the next time, all conversions and exports use these numbers, whatever was asked before. A value's number is found for the value itself; the close number is that of the shortest value the text starts with, else that of the unknown value, else there is an exception. Converting a record takes the close numbers of its features in the order of their names: normalised, each number over the count of values; one hot, one block per feature with a single one; both or neither is refused. Reducing a key to a level replaces its values by one for each first word (words are separated by -, _ or blanks), followed by up to that many further words, at each place the word that is new last in the order of the values, joined by blanks, and the unknown value. Tables answer the same after pickling, and after being made again from their export. A reader of a data set (CMSDatasetTest0Reader) builds such tables of its features and classes, and its training set has every record once, in order, converted by them, its class as number or one hot; with k folds, fold i has the i-th n/k records for validation and all others, in order, for training. Its mean score is the mean of the records' CPU time per request.",
 ["operations","tables","records"],"every set of values, and every sequence of insertions, index generations, conversions, reductions and copies",
 "What is remembered of earlier conversions must not outlive the indexes; no test uses a support table.",
 [DS+"utils.py",DS+"reader.py"],[("SupportTable, ReadableDictAsAttribute",DS+"utils.py"),("CMSDatasetTest0Reader.gen_support_table, train_set",DS+"reader.py")],["numbers, converted features, training sets, exceptions"])
p("C38","Data set stages process every request once, whatever the schedule",
 "A popularity record takes campaign, process, file type and store type from the path of its file (components five to two, at least five are needed), is valid exactly if the store type is data or mc, and has an id that is the same for equal features and different for different ones; a raw record is valid exactly if its type is analysis and then has all features of the list; both are the same after saving, and their data stay accessible. Records merged in any order have the sum of the CPU times and the number of the requests, and keep the class they are given. A stage (raw, featured, record) gives, for inputs in any number of batches and any number of processes, or with Spark, and whatever order the processes end in, one output per valid input record, nothing else; the last one merges the requests with equal features and classes a record good if its CPU time per request is not below the mean over the records, else bad. Batches have the size asked for, the last one may be shorter, and are together the input in order. A window of dates starts at its first day, or one window later, and gives every step-th day up to its size, over months and leap years. A pipeline over local files runs its stages on the requests of exactly the days of its window; its result, the saved file, the file saved for each stage and the statistics agree. Options of Spark given to a stage are used, later ones over earlier ones; those of a pipeline where the stage has none, but its master and name always.",
 ["inputs","schedules","configurations"],"every set of requests, split into batches, number of processes and order in which they end",
 "The processes of a stage end in any order; no test runs a stage.",
 [DS+"stage.py",DS+"generator.py",DS+"resource.py",DS+"utils.py",DF+"extractor.py",DF+"utils.py"],[("Stage.task, CMSRecordTest0Stage, CMSFeaturedStage, CMSRawStage",DS+"stage.py"),("Pipeline.run",DS+"generator.py"),("gen_window_dates",DS+"utils.py"),("CMSResourceManager.get, set",DS+"resource.py"),("CMSDataPopularity, CMSDataPopularityRaw, CMSRecordTest0",DF+"extractor.py")],["records, their ids and validity, outputs of stages, saved files"])
p("C39","Agent clients do exactly what they say, also when requests fail",
 "On an HttpFS server, mkdirs makes the directory and those above it; create stores exactly the bytes of the file or stream given, making directories as needed, and replaces a file only if overwrite is given; open yields exactly the stored bytes for any chunk size; liststatus yields the directories and files immediately below a path, each once, with kind, name and full path; delete removes a path with all below it, refuses a directory that is not empty unless it is recursive, and tells whether there was something to delete. An operation of which a request fails raises an exception and is not taken for done, also if only the second request of an upload fails; nothing else on the server changes. The user and the credentials given go with every request. A document put into ElasticSearch is stored once, with an id that is the same for equal and different for different documents, alone or in a bulk. 'put' of the command line sends every record of the data file from the start index on, in order, each exactly once, in buckets of the bulk size of which only the last may be smaller; at the first request that fails it stops with an error exit, and what was sent before is exactly the buckets before it. 'get' prints the record of an index, also a negative one, or those of a slice, and fails for an index outside the file.",
 ["inputs","histories","faults"],"every sequence of operations, every content, every bulk size and start index, and a failure of any one request",
 "The clients need servers that no test has; a failing second request or a bucket that is just full are not seen in ordinary use.",
 ["DataManager/agent/api.py","DataManager/agent/cli.py"],[("HTTPFS.mkdirs, create, open, liststatus, delete",  "DataManager/agent/api.py"),("ElasticSearchHttp.put","DataManager/agent/api.py"),("cli_main","DataManager/agent/cli.py")],["files, directories and documents on the servers, answers, exceptions, exit status, requests sent"])
PR="Probe/probe/results/"
p("C40","Reading results back counts what the simulations did, log by log",
 "The reader of results (Probe) finds each file of results below the folders it is given once, under its path from the folder on, with its rows and days as they were written and, if there is one, the log of choices beside it. A result has the names of its folders as components, of which those made of a cache and its parameters are reduced to the kind of cache (lru, lfu, sizeSmall, sizeBig; the function of weightFunLRU; aiRL with its type and eviction type); it is selected exactly if it has all components of the one filter and any of the other one (no filter selects). The report on a log, as a dictionary or generated, has one evaluation for each row of an eviction (ONFREE, ONDAYEND, ONK, FORCEDCALL, FREE), in order, also if another one or nothing follows: its tick, event, size and occupancy, how many different files the DELETE rows directly after it (KEEP rows may be between) delete, the sum of their sizes, and how often these files were missed from then until the next such row; none for a log without such rows. The other report has, in order, the number of requests of each deleted file of the last group of deletions (KEEP rows may be between) that is missed again, once each, and of each skipped file. Results without a log have no evaluation. The table of measures has one row per result with the mean of each measure over its days, as defined by the columns (throughput and cost by the cache size, read on hit by the data read, zero if a column is missing), best first by throughput, cost, read on hit ratio and misses (or read on hit ratio first), and only the best if a number is given; the sources are in the order of the rows, each named by its folders after the prefix (full runs, the epsilon and random cache tests and folders named by a size are left out, a feature left out and an epsilon are put in words). All metric values are those of each day.",
 ["logs","results","operations"],"every log, tree of results, filter, selection and sequence of questions",
 "No test reads a log back; what counts depends on which rows follow which.",
 [PR+"utils.py",PR+"data.py"],[("parse_sim_log, LogDeleteEvaluator",PR+"utils.py"),("aggregate_results, Results, Element, parse_simulation_report, make_table, get_measures, get_all_metric_values",PR+"data.py")],["results found, evaluations of logs, tables of measures"])
p("C41","An Avro data file gives back what was written to it, block after block",
 "An Avro data file (DataManager) holds the records given to AvroDataFileWriter in their order, in one or several calls (one dictionary or a list of them), the first ones at its construction or not, with any codec and with a schema of its own or the one deduced from the first record: scalars, lists and maps of one kind of scalar, and records of these nested in any number and depth. What is neither a dictionary nor a list of dictionaries is refused with an exception and writes nothing. The file is written by name, to an open file or to a stream in memory, and read while the writer is still there or after it ended; the raw data of the writer or of a reader is the whole file. A reader answers from the file alone, whatever was read before: its length is the number of records, and asking for it does not disturb an iteration under way; an index gives that record, and an exception if it is negative or there is none; a slice from a to b gives the records a to b-1, every step-th, and downwards from a to b+1 if a is larger (if some do not exist, those which do or an exception); an iteration started anew gives all records in order and ends. A DataFile around the file's name, a stream or the writer answers the same, before and after pickling, and gives chunks of the size asked for (the last one shorter) which are together all records in order.",
 ["files","sequences of operations"],"every sequence of records of any shape a schema can be deduced for, way of writing and sequence of reads",
 "The reader shares one descriptor between its iteration and everything else, and stands between blocks; no test writes or reads an Avro file.",
 ["DataManager/collector/datafile/avro.py","DataManager/collector/datafile/utils.py","DataManager/collector/api.py"],[("AvroDataFileWriter, AvroDataFileReader","DataManager/collector/datafile/avro.py"),("AvroObjectTranslator, gen_increasing_slice","DataManager/collector/datafile/utils.py"),("DataFile","DataManager/collector/api.py")],["the records, lengths and exceptions a reader gives"])
p("C42","Converter maps number their keys, and simulator data is converted by them",
 "make_converter_map of a SimulatorDatasetReader (DataManager) gives each column asked for a map whose keys are the distinct values of that column, as values of the type asked for, or the buckets given (ascending; a last one of '...' opens them to the right for each of those columns and is no key itself); the keys are sorted if asked, and numbered in their order from 0, or from 1 with unknown values (0 then stands for the unknown), what is beyond the last bucket getting the next number after the keys if the buckets are open. The map that is stored (json.gz) says exactly this; maps of other columns stay as they were, and a map made again replaces the old one and all it said. make_data_and_labels makes one row per record in their order, from the columns in the order asked: a column without a map as it is, a column with a map as as many places as it has numbers, with a 1 at the number of the value and 0 elsewhere, the number being that of the equal key or of the smallest bucket not below the value (the one beyond the last bucket, if open, when there is none). A value which has no number (neither a key nor unknown values; above closed buckets) raises an exception. The labels are the label column, or the last column if none is named, converted in the same way: as it is without a map, otherwise one row of places per record. Data for a CNN has one more dimension of 1. modify_column changes that column and nothing else. What is saved after data has been made, by any name, is the same when it is loaded, and what was loaded can be saved again beside it.",
 ["numbers","sequences of operations"],"every table of integers, multiples of a quarter, truth values and words, and sequence of maps, changes and conversions",
 "Maps are made in several calls with arguments kept between columns, and used later in two places which have to agree; no test makes one.",
 ["DataManager/collector/dataset/reader.py"],[("SimulatorDatasetReader","DataManager/collector/dataset/reader.py")],["the stored converter map, the data and labels made and read back, exceptions"])
