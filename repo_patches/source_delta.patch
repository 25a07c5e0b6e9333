From 9a92a5a8815e4f7ca14247eaf479278343deb87f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:24 +0000
Subject: [PATCH 01/19] fix: reject an unrecognized GaussElim value in the
 input deck

It was silently accepted and ran with the first method.
---
 src/Main.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Main.cc b/src/Main.cc
index 8e4b39b..ce17fcc 100644
--- a/src/Main.cc
+++ b/src/Main.cc
@@ -174,6 +174,8 @@ void readInput(const string &inputFileName,
         g_gaussElim = GaussElim_CramerGlu;
     else if (gaussElimMethod == "CramerIntel")
         g_gaussElim = GaussElim_CramerIntel;
+    else
+        Insist(false, "Gaussian elimination type not recognized.");
 
 }
 
-- 
2.43.0


From 18cf907d6981f37b52539f1d3a69ddc7f51be7c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:24 +0000
Subject: [PATCH 02/19] fix: name the line number in input deck parse errors

Appending the int to the string added one character with that code.
---
 src/KeyValueReader.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/KeyValueReader.cc b/src/KeyValueReader.cc
index 6be286f..a492f30 100644
--- a/src/KeyValueReader.cc
+++ b/src/KeyValueReader.cc
@@ -329,7 +329,7 @@ void KeyValueReader::readFile(const string &filename)
         if (!parseOk) {
             totalParseOk = false;
             string errorString = "Parse error on line ";
-            errorString += lineNum;
+            errorString += to_string(lineNum);
             c_data->printMessage(errorString);
         }
         
@@ -337,7 +337,7 @@ void KeyValueReader::readFile(const string &filename)
         else if (findKey(c_data->c_keyVector, key) != KEY_NOT_FOUND) {
             totalParseOk = false;
         	string errorString = "Duplicate key on line ";
-            errorString += lineNum;
+            errorString += to_string(lineNum);
             c_data->printMessage(errorString);
         }
         
-- 
2.43.0


From 2c237cebf194c071ff18d67019627d87de0578d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:24 +0000
Subject: [PATCH 03/19] fix: reject numbers with trailing characters in the
 input deck

stoi and friends stop at the first character they cannot use, so an
iterMax of 1e3 was read as 1.
---
 src/KeyValueReader.cc | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/KeyValueReader.cc b/src/KeyValueReader.cc
index a492f30..7d2065a 100644
--- a/src/KeyValueReader.cc
+++ b/src/KeyValueReader.cc
@@ -410,9 +410,13 @@ void KeyValueReader::getInt(const std::string &key, int &value) const
     
     // Convert to int
     try {
-        value = stoi(valueString);
+        size_t numParsed = 0;
+        value = stoi(valueString, &numParsed);
+        if (numParsed != valueString.size())
+            throw ExceptionStringConversionError;
     }
     catch (...) {
+        value = 0;
         c_data->printMessage("Error converting value to int");
         throw ExceptionStringConversionError;
     }
@@ -438,9 +442,13 @@ void KeyValueReader::getDouble(const std::string &key, double &value) const
     
     // Convert to double
     try {
-        value = stod(valueString);
+        size_t numParsed = 0;
+        value = stod(valueString, &numParsed);
+        if (numParsed != valueString.size())
+            throw ExceptionStringConversionError;
     }
     catch (...) {
+        value = 0;
         c_data->printMessage("Error converting value to double");
         throw ExceptionStringConversionError;
     }
@@ -466,9 +474,13 @@ void KeyValueReader::getFloat(const std::string &key, float &value) const
     
     // Convert value to float
     try {
-        value = stof(valueString);
+        size_t numParsed = 0;
+        value = stof(valueString, &numParsed);
+        if (numParsed != valueString.size())
+            throw ExceptionStringConversionError;
     }
     catch (...) {
+        value = 0;
         c_data->printMessage("Error converting value to float");
         throw ExceptionStringConversionError;
     }
-- 
2.43.0


From fefb27e27f036fa2b0c2792a4ce7cd7418ec7895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:03 +0000
Subject: [PATCH 04/19] fix: reject input deck integers outside their
 documented range

maxCellsPerStep 0 or less hung or ran without limit, an unknown angle
priority was silently ignored, negative counts became huge.
---
 src/Main.cc | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/Main.cc b/src/Main.cc
index ce17fcc..4d60eb6 100644
--- a/src/Main.cc
+++ b/src/Main.cc
@@ -120,6 +120,17 @@ void readInput(const string &inputFileName,
     kvr.getInt("DD_IterMax", ddIterMax);
     kvr.getDouble("DD_ErrMax", g_ddErrMax);
     kvr.getBool("SourceIteration", g_useSourceIteration);
+    
+    
+    // Check the documented ranges
+    // Note: these are stored as unsigned integers below
+    Insist(snOrder > 0, "snOrder must be positive.");
+    Insist(iterMax >= 0, "iterMax must not be negative.");
+    Insist(maxCellsPerStep > 0, "maxCellsPerStep must be positive.");
+    Insist(intraAngleP >= 0 && intraAngleP <= 4, "intraAngleP must be 0 to 4.");
+    Insist(interAngleP >= 0 && interAngleP <= 2, "interAngleP must be 0 to 2.");
+    Insist(nGroups > 0, "nGroups must be positive.");
+    Insist(ddIterMax >= 0, "DD_IterMax must not be negative.");
        
     g_snOrder = snOrder;
     g_iterMax = iterMax;
-- 
2.43.0


From 62cc59856333fe876d121fcd5b767c009224b05e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:03 +0000
Subject: [PATCH 05/19] fix: ask MPI for the thread support that OriginalTycho2
 uses

Its sweep calls MPI from threads other than the one that initialised it,
which MPI_THREAD_SINGLE does not allow.
---
 src/Main.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Main.cc b/src/Main.cc
index 4d60eb6..4e5931d 100644
--- a/src/Main.cc
+++ b/src/Main.cc
@@ -207,7 +207,8 @@ int main(int argc, char *argv[])
     
     
     // Init MPI
-    int required = MPI_THREAD_SINGLE;
+    // OriginalTycho2 makes MPI calls from all threads, one thread at a time
+    int required = MPI_THREAD_SERIALIZED;
     int provided = MPI_THREAD_SINGLE;
     int mpiResult = MPI_Init_thread(&argc, &argv, required, &provided);
     Insist (mpiResult == MPI_SUCCESS, "MPI_Init failed.");
-- 
2.43.0


From 6ca9e86d6eac224aba751229d4c8088c2fa0acc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:03 +0000
Subject: [PATCH 06/19] fix: detect a parallel mesh file that ends early

MPI_File_read succeeds with fewer bytes at the end of the file; the mesh
then contained whatever the buffer held.
---
 src/Comm.cc | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/src/Comm.cc b/src/Comm.cc
index 549903b..a4dedb1 100644
--- a/src/Comm.cc
+++ b/src/Comm.cc
@@ -47,6 +47,24 @@ static const int INT_TAG = 1;
 static const int DOUBLE_TAG = 2;
 
 
+/*
+    readData
+    
+    Read from file.  It is an error if there is not enough data.
+*/
+static
+void readData(const MPI_File &file, void *data, int numData, MPI_Datatype type)
+{
+    int numRead = 0;
+    MPI_Status status;
+    int result = MPI_File_read(file, data, numData, type, &status);
+    Insist(result == MPI_SUCCESS, "Comm read MPI error.\n");
+    result = MPI_Get_count(&status, type, &numRead);
+    Insist(result == MPI_SUCCESS, "Comm read MPI error (count).\n");
+    Insist(numRead == numData, "Comm read reached the end of the file.\n");
+}
+
+
 namespace Comm
 {
 
@@ -370,9 +388,7 @@ void seek(const MPI_File &file, uint64_t position)
 */
 void readUint64(const MPI_File &file, uint64_t &data)
 {
-    int result = MPI_File_read(file, &data, sizeof(uint64_t), MPI_BYTE, 
-                               MPI_STATUS_IGNORE);
-    Insist(result == MPI_SUCCESS, "Comm::readSizeT MPI error.\n");
+    readData(file, &data, 1, MPI_UINT64_T);
 }
 
 
@@ -383,9 +399,7 @@ void readUint64(const MPI_File &file, uint64_t &data)
 */
 void readUint64(const MPI_File &file, uint64_t *data, int numData)
 {
-    int result = MPI_File_read(file, data, sizeof(uint64_t) * numData, MPI_BYTE, 
-                               MPI_STATUS_IGNORE);
-    Insist(result == MPI_SUCCESS, "Comm::readSizeT[] MPI error.\n");
+    readData(file, data, numData, MPI_UINT64_T);
 }
 
 
@@ -396,9 +410,7 @@ void readUint64(const MPI_File &file, uint64_t *data, int numData)
 */
 void readChars(const MPI_File &file, char *data, int numData)
 {
-    int result = MPI_File_read(file, data, sizeof(char) * numData, MPI_BYTE, 
-                               MPI_STATUS_IGNORE);
-    Insist(result == MPI_SUCCESS, "Comm::readSizeT[] MPI error.\n");
+    readData(file, data, numData, MPI_CHAR);
 }
 
 
-- 
2.43.0


From 3f4bc2d0d809a5fb45916c08d8874fc3143db06a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:03 +0000
Subject: [PATCH 07/19] fix: check that closing a written mesh file succeeds

A small mesh is buffered whole until fclose, so on a full disk every
fwrite succeeded and the empty file went unnoticed.
---
 src/ParallelMesh.cc | 5 ++++-
 src/SerialMesh.cc   | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/ParallelMesh.cc b/src/ParallelMesh.cc
index aac98f2..c6c4c98 100644
--- a/src/ParallelMesh.cc
+++ b/src/ParallelMesh.cc
@@ -163,6 +163,7 @@ void ParallelMesh::write(const std::string &filename)
 {
     FILE *file;
     size_t numWritten;
+    int closeResult;
     vector<uint64_t> bufferUint;
     
     
@@ -260,7 +261,9 @@ void ParallelMesh::write(const std::string &filename)
     
     
     // Close file
-    fclose(file);
+    // Buffered data is only written here, so this can fail like a write
+    closeResult = fclose(file);
+    assert(closeResult == 0);
 }
 
 
diff --git a/src/SerialMesh.cc b/src/SerialMesh.cc
index aa5ad9a..eb363cc 100644
--- a/src/SerialMesh.cc
+++ b/src/SerialMesh.cc
@@ -121,6 +121,7 @@ void SerialMesh::write(const std::string &filename)
 {
     FILE *file;
     size_t numWritten;
+    int closeResult;
     vector<uint64_t> bufferUint;
     vector<double> bufferDouble;
     
@@ -197,7 +198,9 @@ void SerialMesh::write(const std::string &filename)
 
     
     // Close file
-    fclose(file);
+    // Buffered data is only written here, so this can fail like a write
+    closeResult = fclose(file);
+    assert(closeResult == 0);
 }
 
 
-- 
2.43.0


From 35b3c3d0f2cf70ce3e9a139b8bafcea68cdfba2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:32 +0000
Subject: [PATCH 08/19] fix: a face parallel to a direction is neither incoming
 nor outgoing

---
 src/CommSides.cc      | 2 +-
 src/GraphTraverser.cc | 3 ++-
 src/TychoMesh.hh      | 2 +-
 3 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/CommSides.cc b/src/CommSides.cc
index 80a1ab7..dc47dba 100644
--- a/src/CommSides.cc
+++ b/src/CommSides.cc
@@ -92,7 +92,7 @@ CommSides::CommSides()
                         
                         c_numSendPackets[rankIndex]++;
                     }
-                    else {
+                    else if (g_tychoMesh->isIncoming(angle, cell, face)) {
                         c_numRecvPackets[rankIndex]++;
                     }
                 }
diff --git a/src/GraphTraverser.cc b/src/GraphTraverser.cc
index d5e9881..d589eec 100644
--- a/src/GraphTraverser.cc
+++ b/src/GraphTraverser.cc
@@ -597,7 +597,8 @@ void GraphTraverser::traverse(const UINT maxComputePerStep,
                             isOutgoingWrtDirection[face] = false;
                         }
                         else {
-                            isOutgoingWrtDirection[face] = true;
+                            isOutgoingWrtDirection[face] = 
+                                g_tychoMesh->isIncoming(angle, cell, face);
                         }
                     }
                 }
diff --git a/src/TychoMesh.hh b/src/TychoMesh.hh
index 5aba20b..4157008 100644
--- a/src/TychoMesh.hh
+++ b/src/TychoMesh.hh
@@ -107,7 +107,7 @@ public:
     bool isOutgoing(const UINT angle, const UINT cell, const UINT face) const
         { return getOmegaDotN(angle, cell, face) > 0; }
     bool isIncoming(const UINT angle, const UINT cell, const UINT face) const
-        { return !isOutgoing(angle, cell, face); }
+        { return getOmegaDotN(angle, cell, face) < 0; }
     UINT getAdjCellFromSide(const UINT side) const
         { return c_adjCellFromSide(side); }
     UINT getAdjFaceFromSide(const UINT side) const
-- 
2.43.0


From 0c6f6f3aecdccd88570a6dd733634c7a5ab3c6c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:55 +0000
Subject: [PATCH 09/19] fix: refine serial meshes with fewer than 1000 cells

---
 util/RefineSerialMesh.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/RefineSerialMesh.cc b/util/RefineSerialMesh.cc
index 8b93774..c0d650e 100644
--- a/util/RefineSerialMesh.cc
+++ b/util/RefineSerialMesh.cc
@@ -377,7 +377,7 @@ void refineMesh(const SerialMesh &coarseMesh, SerialMesh &refinedMesh)
     // Create the refined mesh.
     for (uint64_t coarseCell = 0; coarseCell < coarseMesh.c_numCells; coarseCell++) {
         
-        if (coarseCell % (coarseMesh.c_numCells / 1000) == 0)
+        if (coarseCell % (coarseMesh.c_numCells / 1000 + 1) == 0)
             printf("coarseCell: %" PRIu64 "\n", coarseCell);
         
         
-- 
2.43.0


From 13b94f1157dc1a7495c09e893522f02304414738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:15 +0000
Subject: [PATCH 10/19] fix: do not block on sends before receiving when making
 a sweep schedule

---
 src/Comm.cc          | 43 ++++++++++++++++++++++++----------
 src/Comm.hh          |  6 +++--
 src/SweepSchedule.cc | 56 ++++++++++++++++++++++++++++++++++----------
 3 files changed, 78 insertions(+), 27 deletions(-)

diff --git a/src/Comm.cc b/src/Comm.cc
index a4dedb1..3d9506b 100644
--- a/src/Comm.cc
+++ b/src/Comm.cc
@@ -190,29 +190,30 @@ void gmax(UINT &x)
 
 
 /*
-    sendUint
+    iSendUInt
 
-    Blocking send of a single integer value.
+    Asynchronous send of a single integer value.
+    i must not change or go away until the request completes.
 */
-void sendUInt(UINT i, int destination)
+void iSendUInt(const UINT &i, int destination, MPI_Request &request)
 {
-    int result = MPI_Send(&i, 1, MPI_UINT64_T, destination, INT_TAG, 
-                          MPI_COMM_WORLD);
-    Insist(result == MPI_SUCCESS, "Comm::sendUInt MPI error.\n");
+    UINT *buffer1 = const_cast<UINT*>(&i);
+    int result = MPI_Isend(buffer1, 1, MPI_UINT64_T, destination, INT_TAG, 
+                           MPI_COMM_WORLD, &request);
+    Insist(result == MPI_SUCCESS, "Comm::iSendUInt MPI error.\n");
 }
 
 
 /*
-    sendUintVector
+    iSendUIntVector
     
-    Blocking send of a vector of integer values.
+    Asynchronous send of a vector of integer values.
+    buffer must not change or go away until the request completes.
 */
-void sendUIntVector(const std::vector<UINT> &buffer, int destination)
+void iSendUIntVector(const std::vector<UINT> &buffer, int destination, 
+                     MPI_Request &request)
 {
-    UINT *buffer1 = const_cast<UINT*>(buffer.data());
-    int result = MPI_Send(buffer1, buffer.size(), MPI_UINT64_T, destination, 
-                          INT_TAG, MPI_COMM_WORLD);
-    Insist(result == MPI_SUCCESS, "Comm::sendUIntVector MPI error.\n");
+    iSendUIntVector(buffer, destination, INT_TAG, request);
 }
 
 
@@ -298,6 +299,22 @@ void recvDoubleVector(std::vector<double> &buffer, int destination, int tag)
 }
 
 
+/*
+    waitAll
+    
+    Waits for all the requests to complete.
+*/
+void waitAll(std::vector<MPI_Request> &requests)
+{
+    if (requests.empty())
+        return;
+    
+    int result = MPI_Waitall(requests.size(), requests.data(), 
+                             MPI_STATUSES_IGNORE);
+    Insist(result == MPI_SUCCESS, "Comm::waitAll MPI error.\n");
+}
+
+
 /*
     barrier
     
diff --git a/src/Comm.hh b/src/Comm.hh
index 3472dbe..594a77d 100644
--- a/src/Comm.hh
+++ b/src/Comm.hh
@@ -58,8 +58,9 @@ void gmax(double &x);
 void gmax(double &x, MPI_Comm comm);
 void gmax(UINT &x);
 
-void sendUInt(UINT i, int destination);
-void sendUIntVector(const std::vector<UINT> &buffer, int destination);
+void iSendUInt(const UINT &i, int destination, MPI_Request &request);
+void iSendUIntVector(const std::vector<UINT> &buffer, int destination, 
+                     MPI_Request &request);
 void iSendUIntVector(const std::vector<UINT> &buffer, int destination, 
                      int tag, MPI_Request &request);
 void iSendDoubleVector(const std::vector<double> &buffer, int destination, 
@@ -70,6 +71,7 @@ void recvUIntVector(std::vector<UINT> &buffer, int destination);
 void recvUIntVector(std::vector<UINT> &buffer, int destination, int tag);
 void recvDoubleVector(std::vector<double> &buffer, int destination, int tag);
 
+void waitAll(std::vector<MPI_Request> &requests);
 void barrier();
 
 void openFileForRead(const std::string &filename, MPI_File &file);
diff --git a/src/SweepSchedule.cc b/src/SweepSchedule.cc
index 864c789..bbe103a 100644
--- a/src/SweepSchedule.cc
+++ b/src/SweepSchedule.cc
@@ -260,6 +260,22 @@ void updateLevels(const vector<SweepSchedule::Work> &workDone,
 }
 
 
+/*
+    PendingSends
+    
+    Data being sent to each rank, and the requests of those sends.
+    The data has to stay as it is until the requests complete.
+*/
+struct PendingSends
+{
+    vector<UINT> nSides;
+    vector<vector<UINT> > data;
+    vector<MPI_Request> requests;
+    
+    PendingSends() : nSides(Comm::numRanks()), data(Comm::numRanks()) {}
+};
+
+
 /*
     sendLevels
 */
@@ -268,9 +284,10 @@ void sendLevels(const vector<SweepSchedule::Work> &workDone,
                 const vector<UINT> &angles, 
                 const Mat2<UINT> &cellLevels,
                 const Mat3<bool> &hasParent,
-                const set<UINT> &neighborProcs)
+                const set<UINT> &neighborProcs,
+                PendingSends &pendingSends)
 {
-    vector<vector<UINT> > commSidesAnglesLevels(Comm::numRanks());
+    vector<vector<UINT> > &commSidesAnglesLevels = pendingSends.data;
     
     for (const SweepSchedule::Work &work : workDone) {
         UINT cell = work.getCell();
@@ -292,10 +309,14 @@ void sendLevels(const vector<SweepSchedule::Work> &workDone,
     }
     
     for(UINT proc : neighborProcs) {
-        UINT nSides = commSidesAnglesLevels[proc].size()/3;
-        Comm::sendUInt(nSides, proc);
+        MPI_Request request;
+        UINT &nSides = pendingSends.nSides[proc];
+        nSides = commSidesAnglesLevels[proc].size()/3;
+        Comm::iSendUInt(nSides, proc, request);
+        pendingSends.requests.push_back(request);
         if (nSides > 0) {
-            Comm::sendUIntVector(commSidesAnglesLevels[proc], proc);
+            Comm::iSendUIntVector(commSidesAnglesLevels[proc], proc, request);
+            pendingSends.requests.push_back(request);
         }
     }
 }
@@ -346,9 +367,10 @@ void sendOrders(const vector<SweepSchedule::Work> &workDone,
                 const vector<UINT> &angles, 
                 const Mat3<bool> &hasChild,
                 const set<UINT> &neighborProcs,
-                vector<vector<UINT> > &sendProcs)
+                vector<vector<UINT> > &sendProcs,
+                PendingSends &pendingSends)
 {
-    vector<vector<UINT> > commSidesAngles(Comm::numRanks());
+    vector<vector<UINT> > &commSidesAngles = pendingSends.data;
     
     for (const SweepSchedule::Work &work : workDone) {
         UINT cell = work.getCell();
@@ -369,10 +391,14 @@ void sendOrders(const vector<SweepSchedule::Work> &workDone,
 
     vector<UINT> stepSendProcs;
     for (UINT proc : neighborProcs) {
-        UINT nSides = commSidesAngles[proc].size()/2;
-        Comm::sendUInt(nSides, proc);
+        MPI_Request request;
+        UINT &nSides = pendingSends.nSides[proc];
+        nSides = commSidesAngles[proc].size()/2;
+        Comm::iSendUInt(nSides, proc, request);
+        pendingSends.requests.push_back(request);
         if (nSides > 0) {
-            Comm::sendUIntVector(commSidesAngles[proc], proc);
+            Comm::iSendUIntVector(commSidesAngles[proc], proc, request);
+            pendingSends.requests.push_back(request);
             stepSendProcs.push_back(proc);
         }
     }
@@ -446,9 +472,12 @@ void calcOrdering(const Mat3<bool> &hasChild,
         partialTopoSort(availableWork, nParentsNeeded, hasChild, priorities, 
                         maxCellsPerStep, angles, workDone);
         workOrders.push_back(workDone);
-        sendOrders(workDone, angles, hasChild, neighborProcs, sendProcs);
+        PendingSends pendingSends;
+        sendOrders(workDone, angles, hasChild, neighborProcs, sendProcs, 
+                   pendingSends);
         recvOrders(availableWork, priorities, nParentsNeeded, neighborProcs, 
                    recvProcs);
+        Comm::waitAll(pendingSends.requests);
 
         UINT stepSize = workDone.size();
         Comm::gmax(stepSize);
@@ -493,9 +522,12 @@ UINT calcLevels(Mat2<UINT> &cellLevels,
         partialTopoSort(availableWork, nChildrenNeeded, hasParent, priorities, 
                         maxCellsPerStep, angles, workDone);
         updateLevels(workDone, angles, cellLevels, hasParent);
-        sendLevels(workDone, angles, cellLevels, hasParent, neighborProcs);
+        PendingSends pendingSends;
+        sendLevels(workDone, angles, cellLevels, hasParent, neighborProcs, 
+                   pendingSends);
         recvLevels(cellLevels, sideLevels, availableWork, priorities,
                    nChildrenNeeded, neighborProcs);
+        Comm::waitAll(pendingSends.requests);
     }
     
     UINT nlevels = cellLevels[0];
-- 
2.43.0


From 307634b73198ed0b1faff3ad0f99beeeadd5c777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:15 +0000
Subject: [PATCH 11/19] fix: keep receiving while the Capsaicin sends are in
 flight

---
 src/GraphTraverser.cc | 42 +++++++++++++++++++++++++++++++-----------
 src/GraphTraverser.hh |  3 ++-
 2 files changed, 33 insertions(+), 12 deletions(-)

diff --git a/src/GraphTraverser.cc b/src/GraphTraverser.cc
index d589eec..8d315dc 100644
--- a/src/GraphTraverser.cc
+++ b/src/GraphTraverser.cc
@@ -180,11 +180,13 @@ UINT angleGroupIndex(UINT angle)
     sendData2Sided
 
     Implements two-sided MPI for sending data.
+    The sends are only started: sendBuffers must stay as they are until the 
+    requests complete.
 */
 void GraphTraverser::sendData2Sided(
-    const vector<vector<char>> &sendBuffers) const
+    const vector<vector<char>> &sendBuffers,
+    vector<MPI_Request> &mpiSendRequests) const
 {
-    vector<MPI_Request> mpiSendRequests;
     UINT numAdjRanks = c_adjRankIndexToRank.size();
     int mpiError;
 
@@ -206,14 +208,25 @@ void GraphTraverser::sendData2Sided(
             mpiSendRequests.push_back(request);
         }
     }
-    
-    
-    // Make sure all sends are done
+}
+
+
+/*
+    sendsDone
+
+    Returns true once all the sends have completed.
+*/
+static
+bool sendsDone(vector<MPI_Request> &mpiSendRequests)
+{
+    int flag = 1;
     if (mpiSendRequests.size() > 0) {
-        mpiError = MPI_Waitall(mpiSendRequests.size(), mpiSendRequests.data(), 
-                               MPI_STATUSES_IGNORE);
+        int mpiError = MPI_Testall(mpiSendRequests.size(), 
+                                   mpiSendRequests.data(), &flag, 
+                                   MPI_STATUSES_IGNORE);
         Insist(mpiError == MPI_SUCCESS, "");
     }
+    return flag;
 }
 
 
@@ -238,12 +251,13 @@ void GraphTraverser::recvData2Sided(vector<char> &dataPackets) const
         // Probe for new message
         mpiError = MPI_Iprobe(adjRank, tag, MPI_COMM_WORLD, &flag, &mpiStatus);
         Insist(mpiError == MPI_SUCCESS, "");
-        mpiError = MPI_Get_count(&mpiStatus, MPI_BYTE, &recvCount);
-        Insist(mpiError == MPI_SUCCESS, "");
 
 
         // Recv message if there is one
         if (flag) {
+            mpiError = MPI_Get_count(&mpiStatus, MPI_BYTE, &recvCount);
+            Insist(mpiError == MPI_SUCCESS, "");
+
             UINT originalSize = dataPackets.size();
             dataPackets.resize(originalSize + recvCount);
             
@@ -669,12 +683,18 @@ void GraphTraverser::traverse(const UINT maxComputePerStep,
                 sendAndRecvData(sendBuffers1, dataPackets, commDark, killComm);
             }
             else if (g_mpiType == MPIType_CapsaicinTwoSided) {
+                vector<MPI_Request> mpiSendRequests;
+                
                 sendTimer.start();
-                sendData2Sided(sendBuffers1);
+                sendData2Sided(sendBuffers1, mpiSendRequests);
                 sendTimer.stop();
 
+                // Keep receiving until the sends are done
+                // The adjacent ranks may be waiting on their own sends.
                 recvTimer.start();
-                recvData2Sided(dataPackets);
+                do {
+                    recvData2Sided(dataPackets);
+                } while (!sendsDone(mpiSendRequests));
                 recvTimer.stop();
             }
             else {
diff --git a/src/GraphTraverser.hh b/src/GraphTraverser.hh
index 0784ca0..bd0c835 100644
--- a/src/GraphTraverser.hh
+++ b/src/GraphTraverser.hh
@@ -105,7 +105,8 @@ public:
 
 private:
 
-    void sendData2Sided(const std::vector<std::vector<char>> &sendBuffers) const;
+    void sendData2Sided(const std::vector<std::vector<char>> &sendBuffers,
+                        std::vector<MPI_Request> &mpiSendRequests) const;
     void recvData2Sided(std::vector<char> &dataPackets) const;
     void sendAndRecvData(const std::vector<std::vector<char>> &sendBuffers,
                          std::vector<char> &dataPackets,
-- 
2.43.0


From c6cfba38def98e4d6638a762a94074b80d0496ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:15 +0000
Subject: [PATCH 12/19] fix: keep the data of the sweep sends unchanged until
 they complete

---
 src/Sweeper.cc | 55 +++++++++++++++++++++++++++++++++-----------------
 1 file changed, 36 insertions(+), 19 deletions(-)

diff --git a/src/Sweeper.cc b/src/Sweeper.cc
index 00a5921..64bf8e1 100644
--- a/src/Sweeper.cc
+++ b/src/Sweeper.cc
@@ -50,6 +50,7 @@ OF THE POSSIBILITY OF SUCH DAMAGE.
 #include <cmath>
 #include <iostream>
 #include <algorithm>
+#include <list>
 #include <omp.h>
 #include <mpi.h>
 
@@ -105,6 +106,20 @@ void setBoundData(PsiBoundData &psiBound, const vector<UINT> &commSides,
 }
 
 
+/*
+    PendingSends
+    
+    Data being sent, and the requests of those sends.
+    The data has to stay as it is until the requests complete.
+*/
+struct PendingSends
+{
+    list<vector<UINT>> uints;
+    list<vector<double>> doubles;
+    vector<MPI_Request> requests;
+};
+
+
 /*
     send
     
@@ -113,7 +128,7 @@ void setBoundData(PsiBoundData &psiBound, const vector<UINT> &commSides,
 static
 void send(const UINT step, const UINT angleGroup,
           Mat2<vector<UINT>> &commSidesAngles, Mat2<vector<double>> &commPsi,
-          vector<MPI_Request> &mpiRequests)
+          PendingSends &pendingSends)
 {
     if (step < g_sweepSchedule[angleGroup]->nSteps()) {
         for (UINT proc : g_sweepSchedule[angleGroup]->getSendProcs(step)) {
@@ -121,24 +136,27 @@ void send(const UINT step, const UINT angleGroup,
             MPI_Request mpiRequest;
             UINT nSides = commSidesAngles(angleGroup, proc).size() / 2;
             UINT nData = commPsi(angleGroup, proc).size();
-            vector<UINT> nSidesData = {nSides, nData};
             int tag0 = angleGroup * 3 + 0;
             int tag1 = angleGroup * 3 + 1;
             int tag2 = angleGroup * 3 + 2;
     
-            Comm::iSendUIntVector(nSidesData, proc, tag0, mpiRequest);
-            mpiRequests.push_back(mpiRequest);
+            pendingSends.uints.push_back({nSides, nData});
+            Comm::iSendUIntVector(pendingSends.uints.back(), proc, tag0, 
+                                  mpiRequest);
+            pendingSends.requests.push_back(mpiRequest);
             if (nSides > 0) {
-                Comm::iSendUIntVector(commSidesAngles(angleGroup, proc), proc, 
-                                     tag1, mpiRequest);
-                mpiRequests.push_back(mpiRequest);
-                Comm::iSendDoubleVector(commPsi(angleGroup, proc), proc, 
+                pendingSends.uints.emplace_back();
+                pendingSends.uints.back().swap(commSidesAngles(angleGroup, proc));
+                Comm::iSendUIntVector(pendingSends.uints.back(), proc, 
+                                      tag1, mpiRequest);
+                pendingSends.requests.push_back(mpiRequest);
+                
+                pendingSends.doubles.emplace_back();
+                pendingSends.doubles.back().swap(commPsi(angleGroup, proc));
+                Comm::iSendDoubleVector(pendingSends.doubles.back(), proc, 
                                         tag2, mpiRequest);
-                mpiRequests.push_back(mpiRequest);
+                pendingSends.requests.push_back(mpiRequest);
             }
-            
-            commSidesAngles(angleGroup, proc).clear();
-            commPsi(angleGroup, proc).clear();
         }
     }
 }
@@ -420,17 +438,17 @@ void Sweeper::sweep(PsiData &psi, const PsiData &source, bool zeroPsiBound)
             
             
             // Communication (Non blocking send followed by blocking recv)
-            vector<MPI_Request> mpiRequests;
+            PendingSends pendingSends;
             
             for (UINT angleGroup = 0; angleGroup < g_nAngleGroups; angleGroup++) {    
-                send(step, angleGroup, commSidesAngles, commPsi, mpiRequests);
+                send(step, angleGroup, commSidesAngles, commPsi, pendingSends);
             }
             
             for (UINT angleGroup = 0; angleGroup < g_nAngleGroups; angleGroup++) {
                 recv(step, angleGroup, psiBound);
             }
             
-            MPI_Waitall(mpiRequests.size(), &mpiRequests[0], MPI_STATUSES_IGNORE);
+            Comm::waitAll(pendingSends.requests);
             //Comm::barrier();
         }
     }
@@ -471,11 +489,10 @@ void Sweeper::sweep(PsiData &psi, const PsiData &source, bool zeroPsiBound)
                 
                 
                 // Nonblocking send and blocking recv
-                vector<MPI_Request> mpiRequests;
-                send(step, angleGroup, commSidesAngles, commPsi, mpiRequests);
+                PendingSends pendingSends;
+                send(step, angleGroup, commSidesAngles, commPsi, pendingSends);
                 recv(step, angleGroup, psiBound);
-                MPI_Waitall(mpiRequests.size(), &mpiRequests[0], 
-                            MPI_STATUSES_IGNORE);
+                Comm::waitAll(pendingSends.requests);
                 
                 
                 // Barrier all MPI ranks for thread 'commNumber'
-- 
2.43.0


From 7c7235b1ddec3806767dede7902b419a4ea0ce7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:15 +0000
Subject: [PATCH 13/19] fix: give each neighbor the cell and face of the side
 it shares

---
 src/TychoMeshIO.cc | 31 ++++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/src/TychoMeshIO.cc b/src/TychoMeshIO.cc
index 42b95a2..21a8574 100644
--- a/src/TychoMeshIO.cc
+++ b/src/TychoMeshIO.cc
@@ -296,7 +296,10 @@ void TychoMesh::readTychoMesh(const std::string &filename)
     
     
     // c_adjCellFromSide, c_adjFaceFromSide
+    // The sides shared with another partition are not in the same order there,
+    // so each message names its side.
     vector<MPI_Request> mpiRequests;
+    vector<UINT> sideCellFaces(3 * c_nSides);
     for(UINT  cell = 0; cell < g_nCells; cell++) {
     for(UINT face = 0; face < g_nFacePerCell; face++) {
         UINT adjProc = c_adjProc(cell, face);
@@ -304,11 +307,14 @@ void TychoMesh::readTychoMesh(const std::string &filename)
         
         if(adjCell == BOUNDARY_FACE && adjProc != BAD_RANK) {
             MPI_Request request;
-            UINT cellFace[2];
-            cellFace[0] = cell;
-            cellFace[1] = face;
-            MPI_Isend(cellFace, 2 * sizeof(UINT), MPI_CHAR, adjProc, 0, 
-                      MPI_COMM_WORLD, &request);
+            UINT lside = c_side(cell, face);
+            UINT *sideCellFace = &sideCellFaces[3 * lside];
+            sideCellFace[0] = c_lGSides(lside);
+            sideCellFace[1] = cell;
+            sideCellFace[2] = face;
+            int mpiError = MPI_Isend(sideCellFace, 3 * sizeof(UINT), MPI_CHAR, 
+                                     adjProc, 0, MPI_COMM_WORLD, &request);
+            Insist(mpiError == MPI_SUCCESS, "");
             mpiRequests.push_back(request);
         }
     }}
@@ -321,15 +327,18 @@ void TychoMesh::readTychoMesh(const std::string &filename)
         UINT adjCell = c_adjCell(cell, face);
         
         if(adjCell == BOUNDARY_FACE && adjProc != BAD_RANK) {
-            UINT cellFace[2];
-            MPI_Recv(cellFace, 2 * sizeof(UINT), MPI_CHAR, adjProc, 0, 
-                     MPI_COMM_WORLD, MPI_STATUS_IGNORE);
-            c_adjCellFromSide(c_side(cell, face)) = cellFace[0];
-            c_adjFaceFromSide(c_side(cell, face)) = cellFace[1];
+            UINT sideCellFace[3];
+            int mpiError = MPI_Recv(sideCellFace, 3 * sizeof(UINT), MPI_CHAR, 
+                                    adjProc, 0, MPI_COMM_WORLD, 
+                                    MPI_STATUS_IGNORE);
+            Insist(mpiError == MPI_SUCCESS, "");
+            UINT lside = getGLSide(sideCellFace[0]);
+            c_adjCellFromSide(lside) = sideCellFace[1];
+            c_adjFaceFromSide(lside) = sideCellFace[2];
         }
     }}
     
-    MPI_Waitall(mpiRequests.size(), &mpiRequests[0], MPI_STATUSES_IGNORE);
+    Comm::waitAll(mpiRequests);
 }
 
 
-- 
2.43.0


From dc9bf2528af5d938e6c696c2ce3bcb10aeed23ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:15 +0000
Subject: [PATCH 14/19] fix: return the adjacent face from getAdjFace

---
 src/TychoMesh.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/TychoMesh.hh b/src/TychoMesh.hh
index 4157008..e1edc30 100644
--- a/src/TychoMesh.hh
+++ b/src/TychoMesh.hh
@@ -78,7 +78,7 @@ public:
     UINT getAdjCell(UINT cell, UINT face) const
         { return c_adjCell(cell, face); }
     UINT getAdjFace(UINT cell, UINT face) const
-        { return c_adjCell(cell, face); }
+        { return c_adjFace(cell, face); }
     UINT getSideCell(UINT side) const
         { return c_sideCell(side); }
     UINT getSide(UINT cell, UINT face) const
-- 
2.43.0


From 88319840928c076f1da9806cdf5c67e66a579d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:23 +0000
Subject: [PATCH 15/19] fix: keep 64 bits of face and node ids when
 partitioning a mesh

---
 src/ParallelMesh.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ParallelMesh.cc b/src/ParallelMesh.cc
index c6c4c98..e12133d 100644
--- a/src/ParallelMesh.cc
+++ b/src/ParallelMesh.cc
@@ -422,13 +422,13 @@ void ParallelMesh::createFromSerialMesh(const SerialMesh &serialMesh,
         
         // faces
         for (int lface = 0; lface < 4; lface++) {
-            int face = serialMesh.c_cellData[cell].boundingFaces[lface];
+            uint64_t face = serialMesh.c_cellData[cell].boundingFaces[lface];
             facesInPartition[partition].insert(face);
         }
         
         // nodes
         for (int lnode = 0; lnode < 4; lnode++) {
-            int node = serialMesh.c_cellData[cell].boundingNodes[lnode];
+            uint64_t node = serialMesh.c_cellData[cell].boundingNodes[lnode];
             nodesInPartition[partition].insert(node);
         }
     }
-- 
2.43.0


From 291f4ea0bf42d2fa6fdca42cad988eeae4ca9d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:41 +0000
Subject: [PATCH 16/19] fix: keep the structs of pending sends local to their
 files

---
 src/SweepSchedule.cc | 4 +++-
 src/Sweeper.cc       | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/SweepSchedule.cc b/src/SweepSchedule.cc
index bbe103a..81d8218 100644
--- a/src/SweepSchedule.cc
+++ b/src/SweepSchedule.cc
@@ -266,6 +266,8 @@ void updateLevels(const vector<SweepSchedule::Work> &workDone,
     Data being sent to each rank, and the requests of those sends.
     The data has to stay as it is until the requests complete.
 */
+namespace {
+
 struct PendingSends
 {
     vector<UINT> nSides;
@@ -273,7 +275,7 @@ struct PendingSends
     vector<MPI_Request> requests;
     
     PendingSends() : nSides(Comm::numRanks()), data(Comm::numRanks()) {}
-};
+};}
 
 
 /*
diff --git a/src/Sweeper.cc b/src/Sweeper.cc
index 64bf8e1..fdbfaa2 100644
--- a/src/Sweeper.cc
+++ b/src/Sweeper.cc
@@ -112,12 +112,14 @@ void setBoundData(PsiBoundData &psiBound, const vector<UINT> &commSides,
     Data being sent, and the requests of those sends.
     The data has to stay as it is until the requests complete.
 */
+namespace {
+
 struct PendingSends
 {
     list<vector<UINT>> uints;
     list<vector<double>> doubles;
     vector<MPI_Request> requests;
-};
+};}
 
 
 /*
-- 
2.43.0


From 9239ea86f862eeac9a0e0ab15a2252cddbcbd0d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:30 +0000
Subject: [PATCH 17/19] fix: PBJ sweeps do the requested number of iterations
 (DD_IterMax), not one less

---
 src/SweeperPBJ.cc | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/SweeperPBJ.cc b/src/SweeperPBJ.cc
index 0581871..191aa0a 100644
--- a/src/SweeperPBJ.cc
+++ b/src/SweeperPBJ.cc
@@ -70,9 +70,13 @@ void SweeperPBJOuter::solve()
 
     
     // Source iterate till converged
-    UINT iter = 1;
+    UINT iter = 0;
     while (iter < g_ddIterMax) {
         
+        // Increment iter
+        iter++;
+        
+        
         // Sweep
         UINT its;
         if (g_useSourceIteration)
@@ -105,10 +109,6 @@ void SweeperPBJOuter::solve()
         
         // Communicate
         c_commSides.commSides(c_psi, c_psiBound);
-        
-        
-        // Increment iter
-        iter++;
     }
     
     
@@ -178,9 +178,13 @@ void SweeperPBJ::sweep(PsiData &psi, const PsiData &source, bool zeroPsiBound)
     
     
     // Sweep till converged
-    UINT iter = 1;
+    UINT iter = 0;
     while (iter < g_ddIterMax) {
         
+        // Increment iter
+        iter++;
+        
+        
         // Sweep
         Util::sweepLocal(psi, source, c_psiBoundPrev);
         c_iters++;
@@ -205,10 +209,6 @@ void SweeperPBJ::sweep(PsiData &psi, const PsiData &source, bool zeroPsiBound)
         
         // Communicate
         c_commSides.commSides(psi, c_psiBoundPrev);
-        
-        
-        // Increment iter
-        iter++;
     }
 
 
@@ -243,9 +243,13 @@ void SweeperPBJSI::solve()
 
     
     // Source iterate till converged
-    UINT iter = 1;
+    UINT iter = 0;
     while (iter < g_ddIterMax) {
         
+        // Increment iter
+        iter++;
+        
+        
         Util::calcTotalSource(c_source, phi0, totalSource);
         sweep(c_psi, totalSource, false);
         Util::psiToPhi(phi1, c_psi);
@@ -270,10 +274,6 @@ void SweeperPBJSI::solve()
 
         if (errL1 / normL1 < g_ddErrMax)
             break;
-        
-        
-        // Increment iter
-        iter++;
     }
     
     
-- 
2.43.0


From 7fa89f432af42d7312a9d65c20670ed42e26661b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:51 +0000
Subject: [PATCH 18/19] fix: check the ranks of a mesh file's faces in every
 build

---
 src/TychoMeshIO.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/TychoMeshIO.cc b/src/TychoMeshIO.cc
index 21a8574..667075f 100644
--- a/src/TychoMeshIO.cc
+++ b/src/TychoMeshIO.cc
@@ -259,7 +259,8 @@ void TychoMesh::readTychoMesh(const std::string &filename)
         UINT proc2 = partData.faceData[face].partition[1];
         UINT thisProc = Comm::rank();
         
-        Assert(proc1 == thisProc || proc2 == thisProc);
+        Insist(proc1 == thisProc || proc2 == thisProc, 
+               "Partition mesh face does not belong to this process.");
         c_adjProc(cell, lface) = (proc1 == thisProc) ? proc2 : proc1;
         
         if (c_adjProc(cell, lface) == ParallelMesh::INVALID_INDEX) 
-- 
2.43.0


From 244e8fb510abb64c317ddc39801115e344360aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:51 +0000
Subject: [PATCH 19/19] fix: refuse traversal messages too large for MPI in
 every build

---
 src/GraphTraverser.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/GraphTraverser.cc b/src/GraphTraverser.cc
index 8d315dc..04a5cce 100644
--- a/src/GraphTraverser.cc
+++ b/src/GraphTraverser.cc
@@ -367,7 +367,7 @@ void GraphTraverser::sendAndRecvData(const vector<vector<char>> &sendBuffers,
         // Send data
         if (sendSizes[index] > 0 && sendSizes[index] != UINT64_MAX) {
             MPI_Request request;
-            Assert(sendBuffer.size() < INT_MAX);
+            Insist(sendBuffer.size() < INT_MAX, "Message too large for MPI.");
             
             mpiError = MPI_Isend(const_cast<char*>(sendBuffer.data()), 
                                  sendBuffer.size(), 
-- 
2.43.0

