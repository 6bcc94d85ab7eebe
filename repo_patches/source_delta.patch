From cbb39d1d149df004bbdf722ed20107b1bf305892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:51 +0000
Subject: [PATCH 01/51] fix: restored files keep their own statistics record

The FILES records of a dump carry no file name of their own, so restoring
registered the statistics of every resident file under key 0 and the STATS
records then created a second, distinct object: the first hit or eviction
after a restore panicked.
---
 SmartCache/sim/cache/simpleCache.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SmartCache/sim/cache/simpleCache.go b/SmartCache/sim/cache/simpleCache.go
index dc4b80c..e2b9422 100644
--- a/SmartCache/sim/cache/simpleCache.go
+++ b/SmartCache/sim/cache/simpleCache.go
@@ -305,7 +305,7 @@ func (cache *SimpleCache) Loads(inputString [][]byte, _ ...interface{}) {
 				panic(unmarshalErr)
 			}
 			cache.size += curFileStats.Size
-			cache.stats.Data[curRecord.Filename] = &curFileStats
+			cache.stats.Data[curFileStats.Filename] = &curFileStats
 		case "STATS":
 			var curFileStats files.Stats
 			unmarshalErr = json.Unmarshal([]byte(curRecord.Data), &curFileStats)
-- 
2.43.0


From ca45f8f61152bc38cde4b69faf5617be936cd4f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:29 +0000
Subject: [PATCH 02/51] fix: keep the weight sum in step with the tracked files

Clearing the cache files zeroed the sum of the weights while the files (and
their weights) stayed tracked, so the next update of each of them subtracted
a weight which was no longer in the sum and the mean weight went negative.
The sum is reset where the tracked files are dropped instead.
---
 SmartCache/sim/cache/files/stats.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SmartCache/sim/cache/files/stats.go b/SmartCache/sim/cache/files/stats.go
index 2d4f0eb..3afa6a1 100644
--- a/SmartCache/sim/cache/files/stats.go
+++ b/SmartCache/sim/cache/files/stats.go
@@ -32,6 +32,7 @@ func (s *Manager) Init(maxNumDayDiff float64, deltaDaysStep float64, calcWeight
 	s.Data = make(map[int64]*Stats, estimatedNumFiles)
 	s.deletedFileMiss = make(map[int64]int, estimatedNumFiles)
 	s.calcWeight = calcWeight
+	s.weightSum = 0.0
 	s.maxNumDayDiff = maxNumDayDiff
 	s.deltaDaysStep = deltaDaysStep
 	s.logger = zap.L()
@@ -73,7 +74,6 @@ func (s *Manager) Clear() {
 	for _, fileStats := range s.Data {
 		fileStats.Recency = 0
 	}
-	s.weightSum = 0.0
 }
 
 // Dirty indicates if the stats needs a purge
-- 
2.43.0


From 460fa38ec45cf66f88573882303efd5d5c997aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:29 +0000
Subject: [PATCH 03/51] fix: restore a weight function cache from its dump

The restore cut the last byte of every record and ignored the decoding
errors, so nothing was loaded; the statistics records carried no file name,
the sum of the weights was not rebuilt, and the position in the list of the
last request times was lost.
---
 SmartCache/sim/cache/files/stats.go | 12 +++++++++---
 SmartCache/sim/cache/weightFun.go   | 22 ++++++++++++++--------
 2 files changed, 23 insertions(+), 11 deletions(-)

diff --git a/SmartCache/sim/cache/files/stats.go b/SmartCache/sim/cache/files/stats.go
index 3afa6a1..5363bf6 100644
--- a/SmartCache/sim/cache/files/stats.go
+++ b/SmartCache/sim/cache/files/stats.go
@@ -158,6 +158,12 @@ func (s *Manager) GetOrCreate(filename int64, size float64, reqTime time.Time, c
 	return curStats, !inStats
 }
 
+// AddLoaded registers the stats of a file restored from a dump
+func (s *Manager) AddLoaded(stats *Stats) {
+	s.Data[stats.Filename] = stats
+	s.weightSum += stats.Weight
+}
+
 // UpdateWeight update the weight of a file and also the sum of all weights
 func (s *Manager) UpdateWeight(stats *Stats, newFile bool, wFun functions.WeightFun, alpha float64, beta float64, gamma float64) {
 	if newFile {
@@ -199,7 +205,7 @@ type Stats struct {
 	RequestedTimesMean float64     `json:"requestedTimesMean"`
 	RequestedTimes     []time.Time `json:"requestedTimes"`
 	DeltaLastRequest   int64       `json:"deltaLastRequest"`
-	idxLastRequest     int
+	IdxLastRequest     int         `json:"idxLastRequest"`
 }
 
 // DiffLastUpdate returns the number of days from the last update stats
@@ -222,8 +228,8 @@ func (stats *Stats) UpdateStats(hit bool, size float64, userID int64, siteName i
 	if len(stats.RequestedTimes) < NumRequestedTimes {
 		stats.RequestedTimes = append(stats.RequestedTimes, time.Time{})
 	}
-	stats.RequestedTimes[stats.idxLastRequest] = curTime
-	stats.idxLastRequest = (stats.idxLastRequest + 1) % NumRequestedTimes
+	stats.RequestedTimes[stats.IdxLastRequest] = curTime
+	stats.IdxLastRequest = (stats.IdxLastRequest + 1) % NumRequestedTimes
 }
 
 func (stats *Stats) updateWeight(wFun functions.WeightFun, alpha float64, beta float64, gamma float64) float64 {
diff --git a/SmartCache/sim/cache/weightFun.go b/SmartCache/sim/cache/weightFun.go
index d85cba6..fceae4a 100644
--- a/SmartCache/sim/cache/weightFun.go
+++ b/SmartCache/sim/cache/weightFun.go
@@ -70,12 +70,13 @@ func (cache *WeightFun) Dumps(fileAndStats bool) [][]byte {
 		}
 		// ----- Stats -----
 		cache.logger.Info("Dump cache stats")
-		for _, stats := range cache.stats.Data {
+		for filename, stats := range cache.stats.Data {
 			dumpInfo, _ := json.Marshal(DumpInfo{Type: "STATS"})
 			dumpStats, _ := json.Marshal(stats)
 			record, _ := json.Marshal(DumpRecord{
-				Info: string(dumpInfo),
-				Data: string(dumpStats),
+				Info:     string(dumpInfo),
+				Data:     string(dumpStats),
+				Filename: filename,
 			})
 			record = append(record, newLine...)
 			outData = append(outData, record)
@@ -93,9 +94,14 @@ func (cache *WeightFun) Loads(inputString [][]byte, _ ...interface{}) {
 		unmarshalErr  error
 	)
 	for _, record := range inputString {
-		buffer := record[:len(record)-1]
-		json.Unmarshal(buffer, &curRecord)
-		json.Unmarshal([]byte(curRecord.Info), &curRecordInfo)
+		unmarshalErr = json.Unmarshal(record, &curRecord)
+		if unmarshalErr != nil {
+			panic(unmarshalErr)
+		}
+		unmarshalErr = json.Unmarshal([]byte(curRecord.Info), &curRecordInfo)
+		if unmarshalErr != nil {
+			panic(unmarshalErr)
+		}
 		switch curRecordInfo.Type {
 		case "FILES":
 			var curFileStats files.Stats
@@ -105,7 +111,7 @@ func (cache *WeightFun) Loads(inputString [][]byte, _ ...interface{}) {
 			}
 			queue.Insert(cache.files, &curFileStats)
 			cache.size += curFileStats.Size
-			cache.stats.Data[curRecord.Filename] = &curFileStats
+			cache.stats.AddLoaded(&curFileStats)
 		case "STATS":
 			var curFileStats files.Stats
 			unmarshalErr = json.Unmarshal([]byte(curRecord.Data), &curFileStats)
@@ -113,7 +119,7 @@ func (cache *WeightFun) Loads(inputString [][]byte, _ ...interface{}) {
 				panic(unmarshalErr)
 			}
 			if _, inStats := cache.stats.Data[curRecord.Filename]; !inStats {
-				cache.stats.Data[curRecord.Filename] = &curFileStats
+				cache.stats.AddLoaded(&curFileStats)
 			}
 		}
 	}
-- 
2.43.0


From 82956ad55ba7aa779ec529b4062cc19a9c9f69ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:29 +0000
Subject: [PATCH 04/51] fix: listing an LFU or size ordered queue from the best
 file

The listing started one past the end of each bucket and panicked on any
queue which was not empty.
---
 SmartCache/sim/cache/queue/genericF.go | 2 +-
 SmartCache/sim/cache/queue/lfu.go      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/SmartCache/sim/cache/queue/genericF.go b/SmartCache/sim/cache/queue/genericF.go
index a63efba..7d75347 100644
--- a/SmartCache/sim/cache/queue/genericF.go
+++ b/SmartCache/sim/cache/queue/genericF.go
@@ -48,7 +48,7 @@ func (q *QueueBaseFloat) getQueue() []*files.Stats {
 
 	for idxOVal := len(q.orderedValues) - 1; idxOVal > -1; idxOVal-- {
 		curQueue := q.queue[q.orderedValues[idxOVal]]
-		for idx := len(curQueue); idx > -1; idx-- {
+		for idx := len(curQueue) - 1; idx > -1; idx-- {
 			filename := curQueue[idx]
 			fileStats, inQueue := q.files[filename]
 
diff --git a/SmartCache/sim/cache/queue/lfu.go b/SmartCache/sim/cache/queue/lfu.go
index b07ae31..f78adfe 100644
--- a/SmartCache/sim/cache/queue/lfu.go
+++ b/SmartCache/sim/cache/queue/lfu.go
@@ -45,7 +45,7 @@ func (q *LFU) getQueue() []*files.Stats {
 
 	for idxOVal := len(q.orderedValues) - 1; idxOVal > -1; idxOVal-- {
 		curQueue := q.queue[q.orderedValues[idxOVal]]
-		for idx := len(curQueue); idx > -1; idx-- {
+		for idx := len(curQueue) - 1; idx > -1; idx-- {
 			filename := curQueue[idx]
 			fileStats, inQueue := q.files[filename]
 
-- 
2.43.0


From d7da0c107743be277e6ebab86809e4fd1f815324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:30 +0000
Subject: [PATCH 05/51] fix: dataset verifier cache used an uninitialised queue

Init replaced the queue prepared by SimpleCache.Init with an empty struct
whose maps are nil: storing the first file panicked.
---
 SmartCache/sim/cache/lruDatasetVerifier.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/SmartCache/sim/cache/lruDatasetVerifier.go b/SmartCache/sim/cache/lruDatasetVerifier.go
index eb19b2c..85e0bd1 100644
--- a/SmartCache/sim/cache/lruDatasetVerifier.go
+++ b/SmartCache/sim/cache/lruDatasetVerifier.go
@@ -26,9 +26,6 @@ func (cache *LRUDatasetVerifier) Init(param InitParameters) interface{} {
 	param.QueueType = queue.LRUQueue
 	cache.SimpleCache.Init(param)
 
-	cache.files = &queue.LRU{}
-	cache.stats.Data = make(map[int64]*files.Stats)
-
 	cache.datasetFileMap = make(map[int64]bool)
 	datasetFilePath := param.Dataset2TestPath
 
-- 
2.43.0


From faee94a5ae7d49f292c1f8d61426c7324c7051fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:30 +0000
Subject: [PATCH 06/51] fix: read the plain CSV files of a dataset folder

Go cases do not fall through: the ".csv" case was empty, so the plain files
of a folder (and the ".gzip" ones, which are accepted as single files) were
silently skipped.
---
 SmartCache/sim/cache/simulation.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/SmartCache/sim/cache/simulation.go b/SmartCache/sim/cache/simulation.go
index cf3909c..4977778 100644
--- a/SmartCache/sim/cache/simulation.go
+++ b/SmartCache/sim/cache/simulation.go
@@ -256,8 +256,7 @@ func OpenSimFolder(dirPath *os.File) chan CSVRecord {
 		for _, name := range fileList {
 			fileExt := path.Ext(name)
 			switch fileExt {
-			case ".csv":
-			case ".gz":
+			case ".csv", ".gz", ".gzip":
 				for record := range OpenSimFile(name) {
 					channel <- record
 				}
-- 
2.43.0


From 21bdd148977f1bf8d354adb4318f27a5e36df00a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:30 +0000
Subject: [PATCH 07/51] fix: read the exit code of the jobs

The success filter drops the records with an exit code different from zero,
but the column was never read.
---
 SmartCache/sim/cache/simulation.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/SmartCache/sim/cache/simulation.go b/SmartCache/sim/cache/simulation.go
index 4977778..1d4bb78 100644
--- a/SmartCache/sim/cache/simulation.go
+++ b/SmartCache/sim/cache/simulation.go
@@ -128,6 +128,7 @@ func recordGenerator(csvReader *csv.Reader, curFile *os.File, headerMap []int) c
 			taskMonitorID, _ := strconv.ParseInt(record[headerMap[4]], 10, 64)
 			jobID, _ := strconv.ParseInt(record[headerMap[5]], 10, 64)
 			protocol, _ := strconv.ParseInt(record[headerMap[6]], 10, 64)
+			jobExecExitCode, _ := strconv.ParseInt(record[headerMap[7]], 10, 64)
 			size, _ := strconv.ParseFloat(record[headerMap[13]], 64)
 			dataType, _ := strconv.ParseInt(record[headerMap[14]], 10, 64)
 			fileType, _ := strconv.ParseInt(record[headerMap[15]], 10, 64)
@@ -164,6 +165,8 @@ func recordGenerator(csvReader *csv.Reader, curFile *os.File, headerMap []int) c
 				SizeM:         sizeInMegabytes,
 				Campaign:      campaign,
 				Process:       process,
+
+				JobExecExitCode: jobExecExitCode,
 			}
 
 			// fmt.Println(curRecord)
-- 
2.43.0


From f756982725151c317af0e1d976634acddac10100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:30 +0000
Subject: [PATCH 08/51] fix: category statistics of a day without requests

The daily output of an aiRL cache with an eviction agent divided by zero
(integer) when no request of the day reached the cache.
---
 SmartCache/sim/cache/aiRL.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/SmartCache/sim/cache/aiRL.go b/SmartCache/sim/cache/aiRL.go
index a1a1dc0..d20efb1 100644
--- a/SmartCache/sim/cache/aiRL.go
+++ b/SmartCache/sim/cache/aiRL.go
@@ -1308,6 +1308,10 @@ func writeQTable(outFilename string, data string) {
 }
 
 func (cache *AIRL) meanNumCategories() int {
+	if len(cache.numDailyCategories) == 0 {
+		return 0
+	}
+
 	return cache.sumNumDailyCategories / len(cache.numDailyCategories)
 }
 
-- 
2.43.0


From 09d4bc6b69ae5eb6048bafbe8f997e0a80f23586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:30 +0000
Subject: [PATCH 09/51] fix: dump and restore of an aiRL cache

The memory of the agents has keys of any type, which JSON cannot encode: the
agent records were dumped empty and the restore panicked. The memory is
transient and is left out. The statistics of the restored files are
registered under their own name.
---
 SmartCache/sim/cache/ai/qlearn/qlearn.go | 2 +-
 SmartCache/sim/cache/aiRL.go             | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/SmartCache/sim/cache/ai/qlearn/qlearn.go b/SmartCache/sim/cache/ai/qlearn/qlearn.go
index 64254cc..82e6df4 100644
--- a/SmartCache/sim/cache/ai/qlearn/qlearn.go
+++ b/SmartCache/sim/cache/ai/qlearn/qlearn.go
@@ -191,7 +191,7 @@ type Choice struct {
 
 // Agent used in Qlearning
 type Agent struct {
-	Memory              map[interface{}][]Choice `json:"memory"`
+	Memory              map[interface{}][]Choice `json:"-"`
 	QTable              QTable                   `json:"qtable"`
 	NumStates           int                      `json:"numStates"`
 	NumVars             int                      `json:"numVars"`
diff --git a/SmartCache/sim/cache/aiRL.go b/SmartCache/sim/cache/aiRL.go
index d20efb1..e38f2ff 100644
--- a/SmartCache/sim/cache/aiRL.go
+++ b/SmartCache/sim/cache/aiRL.go
@@ -363,7 +363,7 @@ func (cache *AIRL) Loads(inputString [][]byte, vars ...interface{}) {
 			unmarshalErr = json.Unmarshal([]byte(curRecord.Data), &curFileStats)
 			queue.Insert(cache.files, &curFileStats)
 			cache.size += curFileStats.Size
-			cache.stats.Data[curRecord.Filename] = &curFileStats
+			cache.stats.Data[curFileStats.Filename] = &curFileStats
 		case "STATS":
 			var curFileStats files.Stats
 			unmarshalErr = json.Unmarshal([]byte(curRecord.Data), &curFileStats)
-- 
2.43.0


From cd1501c57fbac00d95abc076168f94951c546746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:30 +0000
Subject: [PATCH 10/51] fix: eviction categories follow the restored and the
 cleared files

The files restored from a dump belonged to no category, so the eviction
agent could never delete them; the files removed by a clear stayed in their
categories, so the agent deleted them again from the occupancy.
---
 SmartCache/sim/cache/aiRL.go | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/SmartCache/sim/cache/aiRL.go b/SmartCache/sim/cache/aiRL.go
index e38f2ff..864b88a 100644
--- a/SmartCache/sim/cache/aiRL.go
+++ b/SmartCache/sim/cache/aiRL.go
@@ -388,6 +388,36 @@ func (cache *AIRL) Loads(inputString [][]byte, vars ...interface{}) {
 		}
 	}
 
+	if cache.evictionAgentOK {
+		for _, file := range queue.GetFromWorst(cache.files) {
+			fileCategory := cache.evictionCategoryManager.GetFileCategory(file)
+			cache.evictionCategoryManager.AddOrUpdateCategoryFile(fileCategory, file)
+		}
+	}
+}
+
+// ClearFiles remove the cache files
+func (cache *AIRL) ClearFiles() {
+	cache.SimpleCache.ClearFiles()
+	cache.clearCategories()
+}
+
+// Clear the AIRL struct
+func (cache *AIRL) Clear() {
+	cache.SimpleCache.Clear()
+	cache.clearCategories()
+}
+
+func (cache *AIRL) clearCategories() {
+	if cache.evictionAgentOK {
+		cache.evictionCategoryManager.Init(
+			cache.evictionFeatureManager.Features,
+			cache.evictionFeatureManager.FeatureIdxWeights,
+			cache.evictionFeatureManager.FileFeatures,
+			cache.evictionFeatureManager.FileFeatureIdxWeights,
+			cache.evictionFeatureManager.FileFeatureIdxMap,
+		)
+	}
 }
 
 func (cache *AIRL) getState4AdditionAgent(hit bool, curFileStats *files.Stats) int {
-- 
2.43.0


From aa90d4dbe9d94774bec152a5d87e6d30ef24ac6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:48 +0000
Subject: [PATCH 11/51] fix: dump and restore of an aiNN cache

The files were dumped as their position in the queue instead of their
statistics, the records were cut and decoded with the errors ignored, and
the statistics had no file name. The dump inherited from SimpleCache is
used instead.
---
 SmartCache/sim/cache/aiNN.go | 58 ------------------------------------
 1 file changed, 58 deletions(-)

diff --git a/SmartCache/sim/cache/aiNN.go b/SmartCache/sim/cache/aiNN.go
index e8ad18b..cc5855f 100644
--- a/SmartCache/sim/cache/aiNN.go
+++ b/SmartCache/sim/cache/aiNN.go
@@ -2,13 +2,11 @@ package cache
 
 import (
 	"context"
-	"encoding/json"
 	"time"
 
 	"simulator/v2/cache/ai/featuremap"
 	"simulator/v2/cache/ai/neuralnet"
 	aiPb "simulator/v2/cache/aiService"
-	"simulator/v2/cache/files"
 	"simulator/v2/cache/queue"
 
 	"google.golang.org/grpc"
@@ -73,62 +71,6 @@ func (cache *AINN) Init(params InitParameters) interface{} {
 	return nil
 }
 
-// Dumps the AINN cache
-func (cache *AINN) Dumps(fileAndStats bool) [][]byte {
-	outData := make([][]byte, 0)
-	var newLine = []byte("\n")
-
-	if fileAndStats {
-		// ----- Files -----
-		cache.logger.Info("Dump cache files")
-		for file := range queue.Get(cache.files) {
-			dumpInfo, _ := json.Marshal(DumpInfo{Type: "FILES"})
-			dumpFile, _ := json.Marshal(file)
-			record, _ := json.Marshal(DumpRecord{
-				Info: string(dumpInfo),
-				Data: string(dumpFile),
-			})
-			record = append(record, newLine...)
-			outData = append(outData, record)
-		}
-		// ----- Stats -----
-		cache.logger.Info("Dump cache stats")
-		for _, stats := range cache.stats.Data {
-			dumpInfo, _ := json.Marshal(DumpInfo{Type: "STATS"})
-			dumpStats, _ := json.Marshal(stats)
-			record, _ := json.Marshal(DumpRecord{
-				Info: string(dumpInfo),
-				Data: string(dumpStats),
-			})
-			record = append(record, newLine...)
-			outData = append(outData, record)
-		}
-	}
-
-	return outData
-}
-
-// Loads the AINN cache
-func (cache *AINN) Loads(inputString [][]byte, _ ...interface{}) {
-	var curRecord DumpRecord
-	var curRecordInfo DumpInfo
-
-	for _, record := range inputString {
-		buffer := record[:len(record)-1]
-		json.Unmarshal(buffer, &curRecord)
-		json.Unmarshal([]byte(curRecord.Info), &curRecordInfo)
-		switch curRecordInfo.Type {
-		case "FILES":
-			var curFile files.Stats
-			json.Unmarshal([]byte(curRecord.Data), &curFile)
-			queue.Insert(cache.files, &curFile)
-			cache.size += curFile.Size
-		case "STATS":
-			json.Unmarshal([]byte(curRecord.Data), &cache.stats.Data)
-		}
-	}
-}
-
 // func (cache *AINN) getCategory(catKey string, value interface{}) []float64 {
 // 	var res []float64
 // 	curCategory := cache.aiFeatureMap[catKey]
-- 
2.43.0


From 10c1082726b850a61f3cf18166964a940751dc94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:49 +0000
Subject: [PATCH 12/51] fix: a run with a memory profile saves its results too

Asking for a memory profile left the simulation right after writing it: no
run statistics, no dump and no configuration were saved and the log of the
choices was never closed.
---
 SmartCache/sim/cache/simulation.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/SmartCache/sim/cache/simulation.go b/SmartCache/sim/cache/simulation.go
index 1d4bb78..1c7e62f 100644
--- a/SmartCache/sim/cache/simulation.go
+++ b/SmartCache/sim/cache/simulation.go
@@ -1004,7 +1004,6 @@ func Simulate(cacheType string, cacheInstance Cache, param SimulationParams) { /
 		if profileCloseErr != nil {
 			panic(profileCloseErr)
 		}
-		return
 	}
 
 	elapsedTime := time.Since(simBeginTime)
-- 
2.43.0


From 1c779a9ad4e5b26e3d04a7686bee34c20d9eafdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:11 +0000
Subject: [PATCH 13/51] fix: an infinite cache has room for the files it
 restores

---
 SmartCache/sim/cache/infiniteCache.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/SmartCache/sim/cache/infiniteCache.go b/SmartCache/sim/cache/infiniteCache.go
index b07f8f2..5028ba7 100644
--- a/SmartCache/sim/cache/infiniteCache.go
+++ b/SmartCache/sim/cache/infiniteCache.go
@@ -45,3 +45,10 @@ func (cache *InfiniteCache) UpdatePolicy(request *Request, fileStats *files.Stat
 
 	return added
 }
+
+// Loads the InfiniteCache cache
+func (cache *InfiniteCache) Loads(inputString [][]byte, args ...interface{}) {
+	size := cache.size
+	cache.SimpleCache.Loads(inputString, args...)
+	cache.MaxSize += cache.size - size
+}
-- 
2.43.0


From b30e3ae90f28e494deac352f6d67aa0213e71e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:04 +0000
Subject: [PATCH 14/51] fix: file features do not share their values with the
 features, so loading an agent dump keeps the buckets

---
 SmartCache/sim/cache/ai/featuremap/featuremap.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/SmartCache/sim/cache/ai/featuremap/featuremap.go b/SmartCache/sim/cache/ai/featuremap/featuremap.go
index 5523f40..84edcbf 100644
--- a/SmartCache/sim/cache/ai/featuremap/featuremap.go
+++ b/SmartCache/sim/cache/ai/featuremap/featuremap.go
@@ -233,6 +233,13 @@ func (manager *FeatureManager) Populate(featureMapFilePath string) { //nolint:ig
 				if curStruct.FileFeature {
 					curFileFeatureIdx := len(manager.FileFeatures)
 					manager.FileFeatureIdxMap[curStruct.Name] = curFileFeatureIdx
+
+					// The file features do not share their values with the features:
+					// decoding a dump in a manager writes in place
+					curStruct.StringValues = append([]string(nil), curStruct.StringValues...)
+					curStruct.BoolValues = append([]bool(nil), curStruct.BoolValues...)
+					curStruct.Int64Values = append([]int64(nil), curStruct.Int64Values...)
+					curStruct.Float64Values = append([]float64(nil), curStruct.Float64Values...)
 					manager.FileFeatures = append(manager.FileFeatures, curStruct)
 				}
 			} else {
-- 
2.43.0


From 303662a025b48eaf96f39d359de3a02102af030b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:13 +0000
Subject: [PATCH 15/51] fix: JSON records are read with Python 3.9 and later,
 where json.loads has no encoding

---
 DataManager/collector/datafile/json.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/DataManager/collector/datafile/json.py b/DataManager/collector/datafile/json.py
index f5b5bba..85ae895 100644
--- a/DataManager/collector/datafile/json.py
+++ b/DataManager/collector/datafile/json.py
@@ -234,7 +234,7 @@ class JSONDataFileReader(object):
         for idx, (json_obj, _) in enumerate(iter(self.__get_json, (None, -1)), cur_idx):
             if idx == stop - 1:
                 break
-            yield json.loads(json_obj, encoding="utf-8")
+            yield json.loads(json_obj)
 
     def __getitem__(self, idx):
         """Select an item or a group of item from the file.
@@ -259,7 +259,7 @@ class JSONDataFileReader(object):
             for cur_index in range(-idx):
                 obj, pos = self.__get_json_from_end()
                 if -cur_index - 1 == idx:
-                    return json.loads(obj, encoding="utf-8")
+                    return json.loads(obj)
             raise IndexError
 
         if isinstance(idx, slice):
@@ -290,7 +290,7 @@ class JSONDataFileReader(object):
                 self.__last_index = cur_idx
 
                 if cur_idx == target_idx:
-                    results.append(json.loads(last_obj, encoding="utf-8"))
+                    results.append(json.loads(last_obj))
                     break
 
                 cur_idx += 1
@@ -324,7 +324,7 @@ class JSONDataFileReader(object):
         """
         next_json, _ = self.__get_json()
         if next_json is not None:
-            return json.loads(next_json, encoding="utf-8")
+            return json.loads(next_json)
         else:
             raise StopIteration
 
-- 
2.43.0


From 313ecdcbb14bf76e7518596d3cef9bbbaecdb5b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:13 +0000
Subject: [PATCH 16/51] fix: a negative index counts from the end of a JSON
 data file

---
 DataManager/collector/datafile/json.py | 26 +++-----------------------
 1 file changed, 3 insertions(+), 23 deletions(-)

diff --git a/DataManager/collector/datafile/json.py b/DataManager/collector/datafile/json.py
index 85ae895..eb933ed 100644
--- a/DataManager/collector/datafile/json.py
+++ b/DataManager/collector/datafile/json.py
@@ -175,24 +175,6 @@ class JSONDataFileReader(object):
             self.__len = num_lines
         return self.__len
 
-    def __get_json_from_end(self, step: int = 1024):
-        buffer = b''
-        index = -step - 1
-        cur_chars = b''
-        while cur_chars.rfind(b'\n') == -1:
-            self.__descriptor.seek(index, 2)
-            last_pos = self.__descriptor.tell()
-            cur_chars = self.__descriptor.read(step)
-            buffer = cur_chars + buffer
-            index -= step
-        if len(buffer) >= 2:
-            return (
-                buffer[cur_chars.rfind(b'\n')+1:], last_pos +
-                cur_chars.rfind(b'\n')
-            )
-        else:
-            return (None, -1)
-
     def __get_json(self):
         """Extract a json object string from the file.
 
@@ -256,11 +238,9 @@ class JSONDataFileReader(object):
             idx, (int, slice)), "Index Could be an integer or a slice"
 
         if isinstance(idx, int) and idx < 0:
-            for cur_index in range(-idx):
-                obj, pos = self.__get_json_from_end()
-                if -cur_index - 1 == idx:
-                    return json.loads(obj)
-            raise IndexError
+            idx += len(self)
+            if idx < 0:
+                raise IndexError
 
         if isinstance(idx, slice):
             to_extract = (elm for elm in gen_increasing_slice(idx))
-- 
2.43.0


From b53a4141b87e26aec6a7322e19524059548f5f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:28 +0000
Subject: [PATCH 17/51] fix: append to compressed JSON data files, which cannot
 seek when they are written

---
 DataManager/collector/datafile/json.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/DataManager/collector/datafile/json.py b/DataManager/collector/datafile/json.py
index eb933ed..4aee5cb 100644
--- a/DataManager/collector/datafile/json.py
+++ b/DataManager/collector/datafile/json.py
@@ -34,8 +34,7 @@ class JSONDataFileWriter(object):
             else:
                 self.__descriptor = get_or_create_descriptor(
                     self.__filename, "wb")
-
-        if append:
+        elif append:
             self.__descriptor.seek(0, 2)
 
         if data is not None:
-- 
2.43.0


From e826d30c91405156a81179d900c950473b024bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:13 +0000
Subject: [PATCH 18/51] fix: a data file of a JSON stream in memory reads the
 stream, not a file of that name

---
 DataManager/collector/api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DataManager/collector/api.py b/DataManager/collector/api.py
index 6cbdd48..1b0ef1d 100644
--- a/DataManager/collector/api.py
+++ b/DataManager/collector/api.py
@@ -43,7 +43,7 @@ class DataFile(object):
             if tmp.find("avro.schema") != -1:
                 return AvroDataFileReader(source)
             else:
-                return JSONDataFileReader(source)
+                return JSONDataFileReader(descriptor=source)
         elif isinstance(source, AvroDataFileWriter):
             tmp = BytesIO(source.raw_data)
             return AvroDataFileReader(tmp)
-- 
2.43.0


From 5cc55097c2b436a45fb7bb13e9b2f41326a3f387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:13 +0000
Subject: [PATCH 19/51] fix: a file larger than the cache of pySim is not
 stored instead of emptying the cache

---
 SmartCache/pySim/cache.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/SmartCache/pySim/cache.py b/SmartCache/pySim/cache.py
index f7b5622..82cdaef 100644
--- a/SmartCache/pySim/cache.py
+++ b/SmartCache/pySim/cache.py
@@ -94,6 +94,8 @@ class LRU(object):
 
     def update_policy(self, filename, file_stats, hit: bool) -> bool:
         if not hit:
+            if file_stats.size > self._max_size:
+                return False
             if self._size + file_stats.size <= self._max_size:
                 self._files[filename] = file_stats
                 self._queue.append(filename)
-- 
2.43.0


From 5838cf6bd91239af784a722970d635f2ccc4a4be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:44 +0000
Subject: [PATCH 20/51] fix: popularity records generate their id instead of
 failing on every valid record

---
 DataManager/collector/datafeatures/extractor.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/DataManager/collector/datafeatures/extractor.py b/DataManager/collector/datafeatures/extractor.py
index f19f088..2a8059f 100644
--- a/DataManager/collector/datafeatures/extractor.py
+++ b/DataManager/collector/datafeatures/extractor.py
@@ -98,7 +98,6 @@ class CMSDataPopularity(FeatureData):
                  ):
         super(CMSDataPopularity, self).__init__()
         self.__data = data
-        self.__id = None
         self.__valid = False
         self.__filters = filters
         self.__extract_features()
@@ -107,7 +106,7 @@ class CMSDataPopularity(FeatureData):
         """Make object loaded by pickle."""
         self.__data = state['data']
         self._features = state['features']
-        self.__id = state['id']
+        self._id = state['id']
         self.__valid = state['valid']
         return self
 
@@ -115,7 +114,7 @@ class CMSDataPopularity(FeatureData):
         return {
             'data': self.__data,
             'features': self._features,
-            'id': self.__id,
+            'id': self._id,
             'valid': self.__valid,
         }
 
@@ -143,7 +142,7 @@ class CMSDataPopularity(FeatureData):
                     [fun(self.feature[name]) for name, fun in self.__filters]
                 )
                 if self.__valid:
-                    self.__gen_id()
+                    self._gen_id()
             except ValueError as err:
                 print(
                     "Cannot extract features from '{}'".format(cur_file))
-- 
2.43.0


From 6c39d34404b3c88943656ab8f2108f4bb0af3989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:44 +0000
Subject: [PATCH 21/51] fix: a stage also processes the inputs which arrive
 when all its processes are busy

---
 DataManager/collector/dataset/stage.py | 30 ++++++++++++--------------
 1 file changed, 14 insertions(+), 16 deletions(-)

diff --git a/DataManager/collector/dataset/stage.py b/DataManager/collector/dataset/stage.py
index f0348c3..ad56df2 100644
--- a/DataManager/collector/dataset/stage.py
+++ b/DataManager/collector/dataset/stage.py
@@ -84,22 +84,6 @@ class Stage(BaseSpark):
             output_queue = Queue()
             with yaspin(text="[STAGE][{}]".format(self.name)) as spinner:
                 for cur_input in input_:
-                    if len(tasks) < num_process:
-                        new_process = Process(
-                            target=self.process,
-                            args=(cur_input, output_queue)
-                        )
-                        tasks.append(new_process)
-                        new_process.start()
-                        spinner.write(
-                            "[STAGE][{}][TASK ADDED]".format(self.name))
-                        spinner.write("[STAGE][{}][{} task{} running]".format(
-                            self.name,
-                            len(tasks),
-                            's' if len(tasks) > 1 else ''
-                        ))
-                        continue
-
                     while len(tasks) == num_process:
                         for task in tasks:
                             spinner.text = "[STAGE][{}][{} task{} running]".format(
@@ -116,6 +100,20 @@ class Stage(BaseSpark):
                                 len(tasks),
                                 's' if len(tasks) > 1 else ''
                             )
+
+                    new_process = Process(
+                        target=self.process,
+                        args=(cur_input, output_queue)
+                    )
+                    tasks.append(new_process)
+                    new_process.start()
+                    spinner.write(
+                        "[STAGE][{}][TASK ADDED]".format(self.name))
+                    spinner.write("[STAGE][{}][{} task{} running]".format(
+                        self.name,
+                        len(tasks),
+                        's' if len(tasks) > 1 else ''
+                    ))
                 else:
                     while len(tasks) > 0:
                         for task in tasks:
-- 
2.43.0


From 240c5eac9a8406493f7e400bf0cfb5adcaf9d179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:44 +0000
Subject: [PATCH 22/51] fix: stages hand dictionaries to their Avro output,
 which takes no strings

---
 DataManager/collector/dataset/stage.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/DataManager/collector/dataset/stage.py b/DataManager/collector/dataset/stage.py
index ad56df2..56064d2 100644
--- a/DataManager/collector/dataset/stage.py
+++ b/DataManager/collector/dataset/stage.py
@@ -172,9 +172,9 @@ class CMSRecordTest0Stage(Stage):
 
         if queue:
             for record in tmp.values():
-                queue.put(record.dumps())
+                queue.put(record.to_dict())
         else:
-            return [elm.dumps() for elm in tmp.values()]
+            return [elm.to_dict() for elm in tmp.values()]
 
     def pre_output(self, output):
         tmp = {}
@@ -218,7 +218,7 @@ class CMSFeaturedStage(Stage):
         for record in records:
             new_record = CMSDataPopularity(record['features'])
             if new_record:
-                tmp.append(new_record.dumps())
+                tmp.append(new_record.to_dict())
 
             # Limit processing for test
             # if len(tmp) >= 1000:
-- 
2.43.0


From 6af5ab3a0a829f46fff7a868bc2aabb7762a0c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:44 +0000
Subject: [PATCH 23/51] fix: appending no records to an Avro file writes
 nothing instead of failing

---
 DataManager/collector/datafile/avro.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/DataManager/collector/datafile/avro.py b/DataManager/collector/datafile/avro.py
index 93ba98f..e3dcedd 100644
--- a/DataManager/collector/datafile/avro.py
+++ b/DataManager/collector/datafile/avro.py
@@ -51,6 +51,8 @@ class AvroDataFileWriter(object):
 
     def __write(self, data):
         """Write data into the avro file."""
+        if not data:
+            return
         if not self.__schema:
             self.__schema = parse_schema(self.__avro_translator.deduce_scheme(data[0]))
 
-- 
2.43.0


From 3fa310b18e0ccf12730dba097685801a58bf941f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:44 +0000
Subject: [PATCH 24/51] fix: a window of dates ends when its size is no
 multiple of the step

---
 DataManager/collector/dataset/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DataManager/collector/dataset/utils.py b/DataManager/collector/dataset/utils.py
index 856a881..4a4fd2e 100644
--- a/DataManager/collector/dataset/utils.py
+++ b/DataManager/collector/dataset/utils.py
@@ -135,7 +135,7 @@ def gen_window_dates(year: int, month: int, day: int, window_size: int, step: in
     else:
         start_date = date(year, month, day) + window_size
     end_date = start_date + window_size
-    while start_date != end_date:
+    while start_date < end_date:
         yield (start_date.year, start_date.month, start_date.day)
         start_date += window_step
 
-- 
2.43.0


From 0c96e64d82251d512c5628370574debebfde49e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:44 +0000
Subject: [PATCH 25/51] fix: a support table forgets what it converted when it
 generates its indexes again

---
 DataManager/collector/dataset/utils.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/DataManager/collector/dataset/utils.py b/DataManager/collector/dataset/utils.py
index 4a4fd2e..8abbea0 100644
--- a/DataManager/collector/dataset/utils.py
+++ b/DataManager/collector/dataset/utils.py
@@ -354,6 +354,11 @@ class SupportTable(object):
                         )
                     )
                 )
+        # The values converted with the previous indexes are no longer valid
+        self.__sorted_keys.clear()
+        self.__sizes.clear()
+        SupportTable.get_value.cache_clear()
+        SupportTable.get_close_value.cache_clear()
         return self
 
     def to_dict(self) -> dict:
-- 
2.43.0


From 625a48d87b783f891980a8f5c663f04ee06808e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:44 +0000
Subject: [PATCH 26/51] fix: an unpickled support table keeps its filters

---
 DataManager/collector/dataset/utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/DataManager/collector/dataset/utils.py b/DataManager/collector/dataset/utils.py
index 8abbea0..6c85d9b 100644
--- a/DataManager/collector/dataset/utils.py
+++ b/DataManager/collector/dataset/utils.py
@@ -187,6 +187,9 @@ class SupportTable(object):
 
     def __setstate__(self, state):
         """Makes obj pickable."""
+        self.filters = ReadableDictAsAttribute({
+            'simple_split': self._filter_simple_split
+        })
         self._tables = state['tables']
         self._indexed_tables = state['indexed_tables']
         self.__sorted_keys = state['sorted_keys']
-- 
2.43.0


From db3ebde7efe78f714ba707b0d1b862cf7bdb4ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:12 +0000
Subject: [PATCH 27/51] fix: the output of a stage is saved as the bytes of a
 file of its format

---
 DataManager/collector/dataset/resource.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/DataManager/collector/dataset/resource.py b/DataManager/collector/dataset/resource.py
index 27497ef..f4af304 100644
--- a/DataManager/collector/dataset/resource.py
+++ b/DataManager/collector/dataset/resource.py
@@ -9,6 +9,7 @@ from yaspin import yaspin
 from ...agent.api import HTTPFS
 from ..api import DataFile
 from ..datafile.json import JSONDataFileReader, JSONDataFileWriter
+from ..datafile.utils import get_or_create_descriptor
 from .utils import BaseSpark, gen_window_dates
 
 
@@ -60,7 +61,7 @@ class CMSDatasetResourceManager(Resource):
                 with yaspin(text="[Save Dataset]") as spinner:
                     cur_base_path = out_dir
                     makedirs(cur_base_path, exist_ok=True)
-                    with open(path.join(cur_base_path, out_name), 'w') as out_data:
+                    with get_or_create_descriptor(path.join(cur_base_path, out_name), 'wb') as out_data:
                         out_data.write(tmp_data.raw_data)
 
                     spinner.write("[Dataset saved]")
@@ -167,7 +168,7 @@ class CMSResourceManager(Resource):
                             out_dir
                         )
                         makedirs(cur_base_path, exist_ok=True)
-                        with open(path.join(cur_base_path, out_name), 'w') as out_data:
+                        with get_or_create_descriptor(path.join(cur_base_path, out_name), 'wb') as out_data:
                             out_data.write(tmp_data.raw_data)
 
                     elif self.type == 'httpfs':
-- 
2.43.0


From 60db8e311050593fe199a201f0ad4d192b21f1a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:23 +0000
Subject: [PATCH 28/51] fix: the length of a data file is found without moving
 the reader, so list() gets its records

---
 DataManager/collector/datafile/avro.py | 3 +++
 DataManager/collector/datafile/json.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/DataManager/collector/datafile/avro.py b/DataManager/collector/datafile/avro.py
index e3dcedd..c7fc64a 100644
--- a/DataManager/collector/datafile/avro.py
+++ b/DataManager/collector/datafile/avro.py
@@ -125,10 +125,13 @@ class AvroDataFileReader(object):
     def __len__(self):
         if not self.__len:
             counter = 0
+            # list() asks for the length after it started to iterate
+            position = self.__descriptor.tell()
             self.__descriptor.seek(0, 0)
             print("[Check avro lenght...]")
             for _ in fast_reader(self.__descriptor):
                 counter += 1
+            self.__descriptor.seek(position, 0)
             self.__len = counter
         return self.__len
 
diff --git a/DataManager/collector/datafile/json.py b/DataManager/collector/datafile/json.py
index 4aee5cb..2f35da3 100644
--- a/DataManager/collector/datafile/json.py
+++ b/DataManager/collector/datafile/json.py
@@ -169,8 +169,11 @@ class JSONDataFileReader(object):
 
     def __len__(self):
         if not self.__len:
+            # list() asks for the length after it started to iterate
+            position = self.__descriptor.tell()
             self.__descriptor.seek(0, 0)
             num_lines = self.__descriptor.read().decode("utf-8").count('\n')
+            self.__descriptor.seek(position, 0)
             self.__len = num_lines
         return self.__len
 
-- 
2.43.0


From d4e027eadaa6ee3cbf5198293213041116b690e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:50:34 +0000
Subject: [PATCH 29/51] fix: a resource yields every file of a day, and the
 content of an HDFS file

---
 DataManager/collector/dataset/resource.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/DataManager/collector/dataset/resource.py b/DataManager/collector/dataset/resource.py
index f4af304..f65bc76 100644
--- a/DataManager/collector/dataset/resource.py
+++ b/DataManager/collector/dataset/resource.py
@@ -127,13 +127,13 @@ class CMSResourceManager(Resource):
                         )
                 ):
                     cur_file = self._httpfs.open(full_path)
-                    collector = DataFile(cur_file)
+                    yield DataFile(cur_file)
             elif self._hdfs_base_path:
                 sc = self.spark_context
                 binary_file = sc.binaryFiles("{}/year={:4d}/month={:d}/day={:d}/part-m-00000.avro".format(
                     self._hdfs_base_path, year, month, day)
                 ).collect()
-                collector = DataFile(binary_file[0])
+                yield DataFile(BytesIO(binary_file[0][1]))
             elif self._local_folder:
                 cur_file_path = path.join(
                     path.abspath(self._local_folder),
@@ -142,10 +142,9 @@ class CMSResourceManager(Resource):
                     "day={}".format(day),
                     "part-m-00000.avro"
                 )
-                collector = DataFile(cur_file_path)
+                yield DataFile(cur_file_path)
             else:
                 raise Exception("No methods to retrieve data...")
-            yield collector
 
     def set(self, data: 'DataFile', stage_name: str = '', out_dir: str = 'cache'):
         out_name = "dataset_y{}-m{}-d{}_ws{}_stage-{}.json.gz".format(
-- 
2.43.0


From d2c2a7d64e458eb1f92e358d3ee2a94898de96d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:50:34 +0000
Subject: [PATCH 30/51] fix: what a stage saves is written before it is
 uploaded

---
 DataManager/collector/dataset/resource.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/DataManager/collector/dataset/resource.py b/DataManager/collector/dataset/resource.py
index f65bc76..cbf7485 100644
--- a/DataManager/collector/dataset/resource.py
+++ b/DataManager/collector/dataset/resource.py
@@ -171,6 +171,7 @@ class CMSResourceManager(Resource):
                             out_data.write(tmp_data.raw_data)
 
                     elif self.type == 'httpfs':
+                        tmp_file.flush()
                         self._httpfs.create(
                             "/{}".format(path.join(out_dir, out_name)),
                             tmp_file.name,
-- 
2.43.0


From 40b70e6341966522e1ce94de62a4fce73b98c0a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:50:34 +0000
Subject: [PATCH 31/51] fix: the agent opens its data files, whose interface
 has moved

---
 DataManager/agent/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DataManager/agent/cli.py b/DataManager/agent/cli.py
index 0668736..ee132c7 100644
--- a/DataManager/agent/cli.py
+++ b/DataManager/agent/cli.py
@@ -3,7 +3,7 @@ from datetime import timedelta
 from sys import exit
 from time import time
 
-from ..collector.interface import DataFileInterface
+from ..collector.api import DataFile as DataFileInterface
 from .api import ElasticSearchHttp
 
 
-- 
2.43.0


From c98f7b2bb819832f895b446dcb2f32bc4d862764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:50:34 +0000
Subject: [PATCH 32/51] fix: a bulk insertion keeps the record which arrives
 when the bucket is full

---
 DataManager/agent/cli.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/DataManager/agent/cli.py b/DataManager/agent/cli.py
index ee132c7..c127f5c 100644
--- a/DataManager/agent/cli.py
+++ b/DataManager/agent/cli.py
@@ -103,9 +103,8 @@ def cli_main():
                     print("[COMMAND][PUT][INSERT][Element {}][DONE in {:0.5f}s][Elapsed time: {:0>8}s]".format(
                         idx, time()-start,  str(timedelta(seconds=time()-command_start))), end='\r')
                 else:
-                    if len(bucket) < BULK_SIZE:
-                        bucket.append(data)
-                    else:
+                    bucket.append(data)
+                    if len(bucket) == BULK_SIZE:
                         tot_elm_done = put_bucket(dest, bucket, tot_elm_done)
                         bucket = []
             else:
-- 
2.43.0


From 95b67d8b3ec5313d102f7859e34ef4fd3978af22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:57:30 +0000
Subject: [PATCH 33/51] fix: a password for ElasticSearch may contain a colon

---
 DataManager/agent/api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DataManager/agent/api.py b/DataManager/agent/api.py
index b37c912..4735651 100644
--- a/DataManager/agent/api.py
+++ b/DataManager/agent/api.py
@@ -279,7 +279,7 @@ class ElasticSearchHttp(object):
         self.__url = url
         if self.__url[-1] != "/":
             self.__url += "/"
-        self.__auth = tuple(auth.split(":")) if auth != "" else None
+        self.__auth = tuple(auth.split(":", 1)) if auth != "" else None
 
     def __enter__(self):
         return self
-- 
2.43.0


From c5247b4d7342d4437d35bd157cabebe4024e9633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:38 +0000
Subject: [PATCH 34/51] fix: a training set has one hot labels where they are
 asked for

---
 DataManager/collector/dataset/reader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/DataManager/collector/dataset/reader.py b/DataManager/collector/dataset/reader.py
index b3a32a8..a37f202 100644
--- a/DataManager/collector/dataset/reader.py
+++ b/DataManager/collector/dataset/reader.py
@@ -348,7 +348,7 @@ class CMSDatasetTest0Reader(object):
             labels = []
             for record in tqdm(self._collector, desc="[Generate train set]"):
                 features, class_ = self.__translate(
-                    record, normalized, one_hot)
+                    record, normalized, one_hot, one_hot_labels)
                 features_list.append(features)
                 labels.append(class_)
             yield (np.array(features_list), np.array(labels), None)
@@ -363,7 +363,7 @@ class CMSDatasetTest0Reader(object):
 
             for record in tqdm(self._collector, desc="[Generate chunks]"):
                 features, class_ = self.__translate(
-                    record, normalized, one_hot)
+                    record, normalized, one_hot, one_hot_labels)
                 tmp_features.append(features)
                 tmp_labels.append(class_)
                 if len(tmp_features) == chunk_size:
-- 
2.43.0


From ca74d16699a0df9a52bd314d5d6f9232620e5be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:48:25 +0000
Subject: [PATCH 35/51] fix: a simulation log without deletion rounds is not an
 error

---
 Probe/probe/results/utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/Probe/probe/results/utils.py b/Probe/probe/results/utils.py
index 7bab61f..2ece0c4 100644
--- a/Probe/probe/results/utils.py
+++ b/Probe/probe/results/utils.py
@@ -143,8 +143,9 @@ def parse_sim_log(log_df: "pd.DataFrame", target: str = "AFTERDELETE"):
                     state = "AFTERDELETE"
                     curLog.trace(row)
         else:
-            curLog.prepare(["Index"] + list(log_df.columns))
-            yield curLog
+            if curLog is not None:
+                curLog.prepare(["Index"] + list(log_df.columns))
+                yield curLog
 
     elif target == "MISSFREQ":
         deleted_files = {}
-- 
2.43.0


From 3da0f472d777f4e7fab57582cb69e1bb002efc68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:48:25 +0000
Subject: [PATCH 36/51] fix: a deletion round directly after another one is a
 round of its own

---
 Probe/probe/results/utils.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/Probe/probe/results/utils.py b/Probe/probe/results/utils.py
index 2ece0c4..c80a366 100644
--- a/Probe/probe/results/utils.py
+++ b/Probe/probe/results/utils.py
@@ -126,14 +126,15 @@ def parse_sim_log(log_df: "pd.DataFrame", target: str = "AFTERDELETE"):
         ):
             event = row[2]
 
-            if state == "AFTERDELETE":
-                if event in ["ONFREE", "ONDAYEND", "ONK", "FORCEDCALL", "FREE"]:
-                    if curLog is not None:
-                        curLog.prepare(["Index"] + list(log_df.columns))
-                        yield curLog
-                    curLog = LogDeleteEvaluator(row)
-                    state = "DELETING"
-                elif curLog is not None:
+            if event in ["ONFREE", "ONDAYEND", "ONK", "FORCEDCALL", "FREE"]:
+                if curLog is not None:
+                    curLog.prepare(["Index"] + list(log_df.columns))
+                    yield curLog
+                curLog = LogDeleteEvaluator(row)
+                state = "DELETING"
+
+            elif state == "AFTERDELETE":
+                if curLog is not None:
                     curLog.trace(row)
 
             elif state == "DELETING":
-- 
2.43.0


From 7b90e29bc452d28eeddf17717b4604c7dc8f1275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:48:25 +0000
Subject: [PATCH 37/51] fix: the size of the deleted files is their column, not
 DataFrame.size

---
 Probe/probe/results/utils.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Probe/probe/results/utils.py b/Probe/probe/results/utils.py
index c80a366..7968c1d 100644
--- a/Probe/probe/results/utils.py
+++ b/Probe/probe/results/utils.py
@@ -60,7 +60,7 @@ class LogDeleteEvaluator(object):
     @property
     def scatterAfter(self):
         return px.scatter_3d(
-            self.after[self.after.size != -1.0],
+            self.after[self.after["size"] != -1.0],
             x="num req",
             y="size",
             z="filename",
@@ -85,7 +85,7 @@ class LogDeleteEvaluator(object):
         return len(set(self.actions.filename))
 
     def _get_total_size_deleted_files(self):
-        return self.actions.size.sum()
+        return self.actions["size"].sum()
 
     def _get_num_deleted_miss(self):
         files = set(self.after.filename) & set(self.actions.filename)
@@ -106,10 +106,10 @@ class LogDeleteEvaluator(object):
         self.actions.loc[selectRows, "delta t"] = new_max * 2.0
 
         cur_max = self.after["delta t"].max()
-        selectRows = (self.after["delta t"] == cur_max) & (self.after.size != -1.0)
+        selectRows = (self.after["delta t"] == cur_max) & (self.after["size"] != -1.0)
         self.after.loc[selectRows, "delta t"] = -1.0
         new_max = self.after["delta t"].max()
-        selectRows = (self.after["delta t"] == -1.0) & (self.after.size != -1.0)
+        selectRows = (self.after["delta t"] == -1.0) & (self.after["size"] != -1.0)
         self.after.loc[selectRows, "delta t"] = new_max * 2.0
 
 
-- 
2.43.0


From 9dc15447083fe0bbf10ee96430bdc9f24efc73c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:48:25 +0000
Subject: [PATCH 38/51] fix: files which a deletion round keeps are not deleted
 files

---
 Probe/probe/results/utils.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/Probe/probe/results/utils.py b/Probe/probe/results/utils.py
index 7968c1d..9874928 100644
--- a/Probe/probe/results/utils.py
+++ b/Probe/probe/results/utils.py
@@ -81,14 +81,18 @@ class LogDeleteEvaluator(object):
     def histActionDeltaT(self):
         return px.histogram(self.actions, x="delta t")
 
+    @property
+    def _deleted(self):
+        return self.actions.loc[self.actions["action or event"] == "DELETE"]
+
     def _get_num_deleted_files(self):
-        return len(set(self.actions.filename))
+        return len(set(self._deleted.filename))
 
     def _get_total_size_deleted_files(self):
-        return self.actions["size"].sum()
+        return self._deleted["size"].sum()
 
     def _get_num_deleted_miss(self):
-        files = set(self.after.filename) & set(self.actions.filename)
+        files = set(self.after.filename) & set(self._deleted.filename)
         tot = 0
         if len(files) > 0:
             counts = self.after.filename[
-- 
2.43.0


From 3e546e524c69b77e7ec1133ebf1d7807feaba014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:48:25 +0000
Subject: [PATCH 39/51] fix: a kept file does not end the group of deletions

---
 Probe/probe/results/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Probe/probe/results/utils.py b/Probe/probe/results/utils.py
index 9874928..be5f647 100644
--- a/Probe/probe/results/utils.py
+++ b/Probe/probe/results/utils.py
@@ -197,7 +197,7 @@ def parse_sim_log(log_df: "pd.DataFrame", target: str = "AFTERDELETE"):
                 freq_skip.append(freq)
 
                 name2check = None
-            else:
+            elif event != "KEEP":
                 if state == "DELETING":
                     state = "AFTERDELETE"
 
-- 
2.43.0


From 3d63fef50e9f0f96fae03ef8cb894f2ea4ab8add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:48:25 +0000
Subject: [PATCH 40/51] fix: parse_simulation_report returns its dictionary
 unless asked to generate

---
 Probe/probe/results/data.py | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/Probe/probe/results/data.py b/Probe/probe/results/data.py
index 6dc2069..c09e73c 100644
--- a/Probe/probe/results/data.py
+++ b/Probe/probe/results/data.py
@@ -292,26 +292,26 @@ def measure_hit_over_miss(df: "pd.DataFrame") -> "pd.Series":
     return df["read on hit data"] / df["read on miss data"]
 
 
-def parse_simulation_report(
-    files2plot: list, prefix: str, generator: bool = False, target: str = "AFTERDELETE"
-) -> dict:
-    del_evaluators = {}
-
+def _gen_simulation_report(files2plot: list, prefix: str, target: str):
     for file_, _, sim_log in tqdm(files2plot, desc="Parse log", position=1):
         name = file_.replace(prefix, "").replace(f"/{SIM_RESULT_FILENAME}", "")
 
-        curEvents = []
+        yield name, parse_sim_log(sim_log, target)
 
-        for del_evaluator in parse_sim_log(sim_log, target):
-            if generator:
-                yield name, del_evaluator
-            else:
-                curEvents.append(del_evaluator)
 
-        if not generator:
-            del_evaluators[name] = curEvents
+def parse_simulation_report(
+    files2plot: list, prefix: str, generator: bool = False, target: str = "AFTERDELETE"
+) -> dict:
+    reports = _gen_simulation_report(files2plot, prefix, target)
+
+    if generator:
+        return (
+            (name, del_evaluator)
+            for name, del_evaluators in reports
+            for del_evaluator in del_evaluators
+        )
 
-    return del_evaluators
+    return {name: list(del_evaluators) for name, del_evaluators in reports}
 
 
 def get_name_no_feature(name: str):
-- 
2.43.0


From 33b0d7b2218ddb40f373db55f1a11a118ac9191a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:48:25 +0000
Subject: [PATCH 41/51] fix: results without a log have no simulation report

---
 Probe/probe/results/data.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Probe/probe/results/data.py b/Probe/probe/results/data.py
index c09e73c..43a680e 100644
--- a/Probe/probe/results/data.py
+++ b/Probe/probe/results/data.py
@@ -134,7 +134,9 @@ class Results(object):
 
     def get_all(self):
         for file_, df in self._elemets.items():
-            yield file_, df, self.get_log(file_, [], [])
+            log_df = self.get_log(file_, [], [])
+            if log_df is not None:
+                yield file_, df, log_df
 
     def get_all_df(self):
         for file_, df in self._elemets.items():
-- 
2.43.0


From 3e321fe96ef396c7b203609a15c1f7943e99ec49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:48:25 +0000
Subject: [PATCH 42/51] fix: make_table gives as many results as asked for

---
 Probe/probe/results/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Probe/probe/results/data.py b/Probe/probe/results/data.py
index 43a680e..d15f658 100644
--- a/Probe/probe/results/data.py
+++ b/Probe/probe/results/data.py
@@ -423,7 +423,7 @@ def make_table(
 
     df = df.round(6)
     if top_n != 0:
-        df = df.iloc[:10]
+        df = df.iloc[:top_n]
 
     source_files = df.source.to_list()
     del df["source"]
-- 
2.43.0


From 581f9e00dcb0252b5e5ce9dd86a2fdf5495305e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:21:05 +0000
Subject: [PATCH 43/51] fix: an Avro file can be read back and appended to by
 its writer

---
 DataManager/collector/datafile/avro.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DataManager/collector/datafile/avro.py b/DataManager/collector/datafile/avro.py
index c7fc64a..d35ea77 100644
--- a/DataManager/collector/datafile/avro.py
+++ b/DataManager/collector/datafile/avro.py
@@ -30,7 +30,7 @@ class AvroDataFileWriter(object):
         """
         self.__descriptor = None
         if isinstance(file_, str):
-            self.__descriptor = open(file_, 'wb')
+            self.__descriptor = open(file_, 'w+b')
         elif isinstance(file_, (BytesIO, IOBase)):
             self.__descriptor = file_
         else:
-- 
2.43.0


From 8ab04c60e04267df84f3d3e37145b0fc88b0bca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:21:05 +0000
Subject: [PATCH 44/51] fix: a DataFile of a stream looks for its format at the
 beginning

---
 DataManager/collector/api.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/DataManager/collector/api.py b/DataManager/collector/api.py
index 1b0ef1d..0611c04 100644
--- a/DataManager/collector/api.py
+++ b/DataManager/collector/api.py
@@ -38,6 +38,7 @@ class DataFile(object):
     @staticmethod
     def __get_collector(source):
         if isinstance(source, BytesIO):
+            source.seek(0)
             tmp = source.read(100).decode("utf-8", errors="ignore")
             source.seek(0)
             if tmp.find("avro.schema") != -1:
-- 
2.43.0


From b7634148711b5e52289ef3ceeeb40c424305a2a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:21:05 +0000
Subject: [PATCH 45/51] fix: deduced Avro schemas name nested records uniquely

---
 DataManager/collector/datafile/utils.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/DataManager/collector/datafile/utils.py b/DataManager/collector/datafile/utils.py
index 1927b2b..a2a2e1d 100644
--- a/DataManager/collector/datafile/utils.py
+++ b/DataManager/collector/datafile/utils.py
@@ -66,7 +66,7 @@ def get_or_create_descriptor(filename, open_mode='rb'):
 
 class AvroObjectTranslator(object):
 
-    def deduce_scheme(self, obj, lvl: int = 0):
+    def deduce_scheme(self, obj, lvl: int = 0, pos: str = ""):
 
         primitive_type = self.__get_primitive_type(obj)
         if primitive_type != "complex":
@@ -81,12 +81,13 @@ class AvroObjectTranslator(object):
             schema = {
                 "namespace": "translator.avro",
                 'type': "record",
-                'name': "data_lvl_{}".format(lvl),
+                'name': "data_lvl_{}{}".format(lvl, pos),
                 'fields': []
             }
-            for key, value in obj.items():
+            for idx, (key, value) in enumerate(obj.items()):
                 schema['fields'].append(
-                    {"name": key, "type": self.deduce_scheme(value, lvl + 1)}
+                    {"name": key, "type": self.deduce_scheme(
+                        value, lvl + 1, "{}_{}".format(pos, idx))}
                 )
             return schema
 
-- 
2.43.0


From b64b69c7ab09a0af3fb216f5f737e30ecdcd7357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:38:08 +0000
Subject: [PATCH 46/51] fix: deduced Avro schemas hold any float and integer

The schema deduced from the first record was made of Avro's 32-bit int and
single precision float: other Python floats were written changed, and
larger integers were refused.
---
 DataManager/collector/datafile/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/DataManager/collector/datafile/utils.py b/DataManager/collector/datafile/utils.py
index a2a2e1d..b2d78d4 100644
--- a/DataManager/collector/datafile/utils.py
+++ b/DataManager/collector/datafile/utils.py
@@ -96,9 +96,9 @@ class AvroObjectTranslator(object):
         if isinstance(value, bool):
             return "boolean"
         elif isinstance(value, int):
-            return "int"
+            return "long"
         elif isinstance(value, float):
-            return "float"
+            return "double"
         elif isinstance(value, str):
             return "string"
         elif isinstance(value, bytes):
-- 
2.43.0


From fc54e5061eeedb3ab2a1c511553a170c9cfca53a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:38:08 +0000
Subject: [PATCH 47/51] fix: a converter map made again forgets the old one

---
 DataManager/collector/dataset/reader.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/DataManager/collector/dataset/reader.py b/DataManager/collector/dataset/reader.py
index a37f202..8ec7ef0 100644
--- a/DataManager/collector/dataset/reader.py
+++ b/DataManager/collector/dataset/reader.py
@@ -61,16 +61,15 @@ class SimulatorDatasetReader(object):
             sort_type = map_type
 
         for column in columns:
-            if column not in self._converter_map:
-                self._converter_map[column] = {
-                    'feature': column,
-                    'type': None,
-                    'keys': [],
-                    'values': {},
-                    'unknown_values': unknown_values,
-                    'buckets': False,
-                    'bucket_open_right': False,
-                }
+            self._converter_map[column] = {
+                'feature': column,
+                'type': None,
+                'keys': [],
+                'values': {},
+                'unknown_values': unknown_values,
+                'buckets': False,
+                'bucket_open_right': False,
+            }
 
             cur_map = self._converter_map[column]
 
-- 
2.43.0


From 1f0f0c91042195f55d367ebd9311b7191214de26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:38:08 +0000
Subject: [PATCH 48/51] fix: closed buckets are buckets, and open ones stay
 open for every column

---
 DataManager/collector/dataset/reader.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/DataManager/collector/dataset/reader.py b/DataManager/collector/dataset/reader.py
index 8ec7ef0..fce7e1b 100644
--- a/DataManager/collector/dataset/reader.py
+++ b/DataManager/collector/dataset/reader.py
@@ -83,11 +83,12 @@ class SimulatorDatasetReader(object):
                 cur_map['type'] = "bool"
 
             if buckets:
+                cur_map['buckets'] = True
                 if buckets[-1] == "...":
-                    cur_map['buckets'] = True
                     cur_map['bucket_open_right'] = True
-                    buckets = buckets[:-1]
-                cur_map['keys'] = buckets
+                    cur_map['keys'] = buckets[:-1]
+                else:
+                    cur_map['keys'] = buckets
             else:
                 cur_map['keys'] = list(
                     set(self._df[column].astype(map_type).to_list())
-- 
2.43.0


From d98ebf546baaa3ac6b50ddb3c508035d2707ff68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:38:08 +0000
Subject: [PATCH 49/51] fix: converted data follows the numbers of the map

---
 DataManager/collector/dataset/reader.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/DataManager/collector/dataset/reader.py b/DataManager/collector/dataset/reader.py
index fce7e1b..45ce610 100644
--- a/DataManager/collector/dataset/reader.py
+++ b/DataManager/collector/dataset/reader.py
@@ -142,6 +142,15 @@ class SimulatorDatasetReader(object):
         else:
             return str(value)
 
+    @staticmethod
+    def __get_num_categories(category_obj) -> int:
+        num_categories = len(category_obj['keys'])
+        if category_obj['unknown_values']:
+            num_categories += 1
+        if category_obj['bucket_open_right']:
+            num_categories += 1
+        return num_categories
+
     def __get_category_value(self, category_obj, value) -> int:
         if not category_obj['buckets']:
             if value in category_obj['keys']:
@@ -199,10 +208,7 @@ class SimulatorDatasetReader(object):
                 if column in self._converter_map:
                     cur_map = self._converter_map[column]
 
-                    if cur_map['unknown_values'] or cur_map['bucket_open_right']:
-                        num_categories = len(cur_map['keys']) + 1
-                    else:
-                        num_categories = len(cur_map['keys'])
+                    num_categories = self.__get_num_categories(cur_map)
 
                     categories = []
                     for value in df[column]:
@@ -211,8 +217,6 @@ class SimulatorDatasetReader(object):
                             value
                         )
                         tmp = np.zeros(num_categories, dtype='float32')
-                        if not cur_map['unknown_values']:
-                            cur_value -= 1
                         tmp[cur_value] = 1.0
                         categories.append(
                             tmp.tolist()
-- 
2.43.0


From 1fdf31021fe31ac02cb7c413d553a83058d0e568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:38:08 +0000
Subject: [PATCH 50/51] fix: labels are converted as the data is

---
 DataManager/collector/dataset/reader.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/DataManager/collector/dataset/reader.py b/DataManager/collector/dataset/reader.py
index 45ce610..4a65254 100644
--- a/DataManager/collector/dataset/reader.py
+++ b/DataManager/collector/dataset/reader.py
@@ -153,10 +153,9 @@ class SimulatorDatasetReader(object):
 
     def __get_category_value(self, category_obj, value) -> int:
         if not category_obj['buckets']:
-            if value in category_obj['keys']:
-                return category_obj['values'][
-                    self.__get_str_value(value)
-                ]
+            str_value = self.__get_str_value(value)
+            if str_value in category_obj['values']:
+                return category_obj['values'][str_value]
             if category_obj['unknown_values']:
                 return 0
         else:
@@ -188,13 +187,18 @@ class SimulatorDatasetReader(object):
                 label_column = df.columns[-1]
             if label_column in self._converter_map:
                 tmp_labels = [
-                    self._converter_map[label_column]['values'][elm]
-                    for elm in df[label_column].astype(str)
+                    self.__get_category_value(
+                        self._converter_map[label_column],
+                        elm
+                    )
+                    for elm in df[label_column]
                 ]
                 labels = np.zeros(
                     (
                         len(tmp_labels),
-                        len(self._converter_map[label_column]['keys'])
+                        self.__get_num_categories(
+                            self._converter_map[label_column]
+                        )
                     ),
                     dtype='int32'
                 )
-- 
2.43.0


From bdbc529af2f9811891006ef3ef71bbdca25a339b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:38:08 +0000
Subject: [PATCH 51/51] fix: a first column without a map can be joined

---
 DataManager/collector/dataset/reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DataManager/collector/dataset/reader.py b/DataManager/collector/dataset/reader.py
index 4a65254..67b01d6 100644
--- a/DataManager/collector/dataset/reader.py
+++ b/DataManager/collector/dataset/reader.py
@@ -233,7 +233,7 @@ class SimulatorDatasetReader(object):
                         ]
                     )
                 else:
-                    cur_data = df[column]
+                    cur_data = df[[column]]
 
                 sp.text = "[Merge data]"
                 if new_df is not None:
-- 
2.43.0

