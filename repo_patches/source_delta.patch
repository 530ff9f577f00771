From 54419da407eecbbbed2847aa6d2f46df55e4ff77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:16 +0000
Subject: [PATCH 01/27] fix: do not lose or misindex connections departing
 after the last cached hour

---
 src/connection_set.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/connection_set.cpp b/src/connection_set.cpp
index 13c04b5..4ae4288 100644
--- a/src/connection_set.cpp
+++ b/src/connection_set.cpp
@@ -10,8 +10,11 @@ namespace TrRouting {
 
   std::vector<std::reference_wrapper<const Connection>>::const_iterator ConnectionSet::getForwardConnectionsBeginAtDepartureHour(int hour) const
   {
-    if (hour > CONNECTION_ITERATOR_CACHE_END_HOUR || hour  < CONNECTION_ITERATOR_CACHE_BEGIN_HOUR) {
+    if (hour < CONNECTION_ITERATOR_CACHE_BEGIN_HOUR) {
       return forwardConnections.cend();
+    } else if (hour > CONNECTION_ITERATOR_CACHE_END_HOUR - 1) {
+      // The cache stops before this hour, start from its last entry so no later connection is missed
+      return forwardConnectionsBeginIteratorCache[CONNECTION_ITERATOR_CACHE_END_HOUR - 1];
     }
 
     return forwardConnectionsBeginIteratorCache[hour];
@@ -40,7 +43,7 @@ namespace TrRouting {
          ite++) {
       // We can have a gap of multiple hours between 2 connections, so the current iterator
       // can be valid for multiple hour slots
-      while ((*ite).get().getDepartureTime() >= currentHour * 3600) {
+      while (currentHour < CONNECTION_ITERATOR_CACHE_END_HOUR && (*ite).get().getDepartureTime() >= currentHour * 3600) {
         forwardConnectionsBeginIteratorCache.push_back(ite);
         currentHour++;
       }
-- 
2.43.0


From 1680369a645c78544d6600424ab8ecfdc77fab56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:27 +0000
Subject: [PATCH 02/27] fix: do not truncate minimum waiting times above 32767
 seconds

---
 connection_scan_algorithm/src/forward_calculation.cpp | 4 ++--
 connection_scan_algorithm/src/reverse_calculation.cpp | 8 ++++----
 include/connection.hpp                                | 2 +-
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/connection_scan_algorithm/src/forward_calculation.cpp b/connection_scan_algorithm/src/forward_calculation.cpp
index 2251bc8..c1641f3 100644
--- a/connection_scan_algorithm/src/forward_calculation.cpp
+++ b/connection_scan_algorithm/src/forward_calculation.cpp
@@ -18,7 +18,7 @@ namespace TrRouting
     int   nodeDepartureTentativeTime      {MAX_INT};
     int   connectionDepartureTime         {-1};
     int   connectionArrivalTime           {-1};
-    short connectionMinWaitingTimeSeconds {-1};
+    int connectionMinWaitingTimeSeconds {-1};
     //long long   footpathsRangeStart       {-1};
     //long long   footpathsRangeEnd         {-1};
     int   footpathIndex                   {-1};
@@ -209,7 +209,7 @@ namespace TrRouting
     int   nodeDepartureTentativeTime      {MAX_INT};
     int   connectionDepartureTime         {-1};
     int   connectionArrivalTime           {-1};
-    short connectionMinWaitingTimeSeconds {-1};
+    int connectionMinWaitingTimeSeconds {-1};
     //long long   footpathsRangeStart       {-1};
     //long long   footpathsRangeEnd         {-1};
     int   footpathIndex                   {-1};
diff --git a/connection_scan_algorithm/src/reverse_calculation.cpp b/connection_scan_algorithm/src/reverse_calculation.cpp
index 8a1d20c..6f4188d 100644
--- a/connection_scan_algorithm/src/reverse_calculation.cpp
+++ b/connection_scan_algorithm/src/reverse_calculation.cpp
@@ -19,8 +19,8 @@ namespace TrRouting
     std::optional<std::reference_wrapper<const Connection>> tripExitConnection;
     int  connectionDepartureTime          {-1};
     int  connectionArrivalTime            {-1};
-    short connectionMinWaitingTimeSeconds {-1};
-    short journeyConnectionMinWaitingTimeSeconds {-1};
+    int connectionMinWaitingTimeSeconds {-1};
+    int journeyConnectionMinWaitingTimeSeconds {-1};
     //long long  footpathsRangeStart        {-1};
     //long long  footpathsRangeEnd          {-1};
     int  footpathIndex                    {-1};
@@ -228,8 +228,8 @@ namespace TrRouting
     std::optional<std::reference_wrapper<const Connection>> tripExitConnection;
     int  connectionDepartureTime          {-1};
     int  connectionArrivalTime            {-1};
-    short connectionMinWaitingTimeSeconds {-1};
-    short journeyConnectionMinWaitingTimeSeconds {-1};
+    int connectionMinWaitingTimeSeconds {-1};
+    int journeyConnectionMinWaitingTimeSeconds {-1};
     //long long  footpathsRangeStart        {-1};
     //long long  footpathsRangeEnd          {-1};
     int  footpathIndex                    {-1};
diff --git a/include/connection.hpp b/include/connection.hpp
index 1c6adde..53fb85c 100644
--- a/include/connection.hpp
+++ b/include/connection.hpp
@@ -42,7 +42,7 @@ namespace TrRouting
     int getSequenceInTrip() const {return sequenceInTrip;}
     bool canTransferSameLine() const {return canTransferSameLineValue;}
     short getMinWaitingTime() const {return minWaitingTimeSeconds;}
-    short getMinWaitingTimeOrDefault(short defaultMinWaitingTime) const {
+    int getMinWaitingTimeOrDefault(int defaultMinWaitingTime) const {
       if (minWaitingTimeSeconds >= 0) {
         return minWaitingTimeSeconds;
       } else {
-- 
2.43.0


From 755b47e9c92bd293da9e8ece649f00e7812b3f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:56 +0000
Subject: [PATCH 03/27] fix: compare reverse access boardings by departure
 minus minimum waiting time

---
 connection_scan_algorithm/src/reverse_calculation.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/connection_scan_algorithm/src/reverse_calculation.cpp b/connection_scan_algorithm/src/reverse_calculation.cpp
index 6f4188d..af88536 100644
--- a/connection_scan_algorithm/src/reverse_calculation.cpp
+++ b/connection_scan_algorithm/src/reverse_calculation.cpp
@@ -149,7 +149,9 @@ namespace TrRouting
                      //TODO Really not sure this is equivalent
                      reverseAccessJourneysSteps.count(transferableNode.node.uid) == 0
                      || 
-                     reverseAccessJourneysSteps.at(transferableNode.node.uid).getFinalEnterConnection().value().get().getDepartureTime() <= connectionDepartureTime - connectionMinWaitingTimeSeconds
+                     reverseAccessJourneysSteps.at(transferableNode.node.uid).getFinalEnterConnection().value().get().getDepartureTime()
+                       - reverseAccessJourneysSteps.at(transferableNode.node.uid).getFinalEnterConnection().value().get().getMinWaitingTimeOrDefault(parameters.getMinWaitingTimeSeconds())
+                       <= connectionDepartureTime - connectionMinWaitingTimeSeconds
                     )
                   )
                   {                    
@@ -346,7 +348,9 @@ namespace TrRouting
                      //TODO Really not sure this is equivalent
                      reverseAccessJourneysSteps.count(transferableNode.node.uid) == 0
                      ||
-                     reverseAccessJourneysSteps.at(transferableNode.node.uid).getFinalEnterConnection().value().get().getDepartureTime() <= connectionDepartureTime - connectionMinWaitingTimeSeconds
+                     reverseAccessJourneysSteps.at(transferableNode.node.uid).getFinalEnterConnection().value().get().getDepartureTime()
+                       - reverseAccessJourneysSteps.at(transferableNode.node.uid).getFinalEnterConnection().value().get().getMinWaitingTimeOrDefault(parameters.getMinWaitingTimeSeconds())
+                       <= connectionDepartureTime - connectionMinWaitingTimeSeconds
                     )
                   )
                   {
-- 
2.43.0


From 2993b87725c72a5217c7580c5c82b1d2fabc19b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:31 +0000
Subject: [PATCH 04/27] fix: subtract the effective minimum waiting time in the
 reverse accessibility map

---
 connection_scan_algorithm/src/reverse_journey.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/connection_scan_algorithm/src/reverse_journey.cpp b/connection_scan_algorithm/src/reverse_journey.cpp
index 218a32f..32ad0f6 100644
--- a/connection_scan_algorithm/src/reverse_journey.cpp
+++ b/connection_scan_algorithm/src/reverse_journey.cpp
@@ -322,9 +322,8 @@ namespace TrRouting
       }
 
       if (reverseAccessJourneysSteps.at(resultingNode.uid).getFinalEnterConnection().has_value()) {
-        //TODO Should check taht MinWaiting is not -1 or use OrDefault(0)
         //TODO Could move this operation into a function of class Connection
-        int departureTimeD = reverseAccessJourneysSteps.at(resultingNode.uid).getFinalEnterConnection().value().get().getDepartureTime() - reverseAccessJourneysSteps.at(resultingNode.uid).getFinalEnterConnection().value().get().getMinWaitingTime();
+        int departureTimeD = reverseAccessJourneysSteps.at(resultingNode.uid).getFinalEnterConnection().value().get().getDepartureTime() - reverseAccessJourneysSteps.at(resultingNode.uid).getFinalEnterConnection().value().get().getMinWaitingTimeOrDefault(parameters.getMinWaitingTimeSeconds());
         if (arrivalTimeSeconds - departureTimeD <=  parameters.getMaxTotalTravelTimeSeconds()) {
           reachableNodesCount++;
 
-- 
2.43.0


From b1767f8ca0432c65f8dda189a6f9a12f6af8d5d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:26 +0000
Subject: [PATCH 05/27] fix: report no service when no boarding or alighting
 was possible on any reachable connection

---
 .../src/forward_calculation.cpp                      | 12 ++++++++++--
 .../src/reverse_calculation.cpp                      | 12 ++++++++++--
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/connection_scan_algorithm/src/forward_calculation.cpp b/connection_scan_algorithm/src/forward_calculation.cpp
index c1641f3..536a94f 100644
--- a/connection_scan_algorithm/src/forward_calculation.cpp
+++ b/connection_scan_algorithm/src/forward_calculation.cpp
@@ -155,7 +155,11 @@ namespace TrRouting
                 footpathIndex++;
               }
             }
-            reachableConnectionsCount++;
+            // A connection is reachable only if its trip can be boarded from the origin
+            if (currentTripQueryOverlay.enterConnection.has_value())
+            {
+              reachableConnectionsCount++;
+            }
           }
         }
       }
@@ -331,7 +335,11 @@ namespace TrRouting
                 footpathIndex++;
               }
             }
-            reachableConnectionsCount++;
+            // A connection is reachable only if its trip can be boarded from the origin
+            if (currentTripQueryOverlay.enterConnection.has_value())
+            {
+              reachableConnectionsCount++;
+            }
           }
         }
       }
diff --git a/connection_scan_algorithm/src/reverse_calculation.cpp b/connection_scan_algorithm/src/reverse_calculation.cpp
index af88536..d2b43d8 100644
--- a/connection_scan_algorithm/src/reverse_calculation.cpp
+++ b/connection_scan_algorithm/src/reverse_calculation.cpp
@@ -178,7 +178,11 @@ namespace TrRouting
                 footpathIndex++;
               }
             }
-            reachableConnectionsCount++;
+            // A connection is reachable only if its trip can be left to reach the destination
+            if (currentTripQueryOverlay.exitConnection.has_value())
+            {
+              reachableConnectionsCount++;
+            }
           }
         }
       }
@@ -377,7 +381,11 @@ namespace TrRouting
                 footpathIndex++;
               }
             }
-            reachableConnectionsCount++;
+            // A connection is reachable only if its trip can be left to reach the destination
+            if (currentTripQueryOverlay.exitConnection.has_value())
+            {
+              reachableConnectionsCount++;
+            }
           }
         }
       }
-- 
2.43.0


From 353fb4be97a8aadb609e463e04ef241e6eaaf3df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:42 +0000
Subject: [PATCH 06/27] fix: apply the first waiting time maximum whatever the
 minimum waiting time in the reverse calculation

---
 connection_scan_algorithm/src/reverse_calculation.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/connection_scan_algorithm/src/reverse_calculation.cpp b/connection_scan_algorithm/src/reverse_calculation.cpp
index d2b43d8..3704a5a 100644
--- a/connection_scan_algorithm/src/reverse_calculation.cpp
+++ b/connection_scan_algorithm/src/reverse_calculation.cpp
@@ -165,7 +165,7 @@ namespace TrRouting
                       if (
                         departureTimeSeconds == -1
                         ||
-                        parameters.getMaxFirstWaitingTimeSeconds() < connectionMinWaitingTimeSeconds
+                        parameters.getMaxFirstWaitingTimeSeconds() <= 0 // disabled
                         ||
                         connectionDepartureTime - departureTimeSeconds - nodeDepartureInNodesAccessIte->second.time <= parameters.getMaxFirstWaitingTimeSeconds()
                       )
@@ -368,7 +368,7 @@ namespace TrRouting
                       if (
                         departureTimeSeconds == -1
                         ||
-                        parameters.getMaxFirstWaitingTimeSeconds() < connectionMinWaitingTimeSeconds
+                        parameters.getMaxFirstWaitingTimeSeconds() <= 0 // disabled
                         ||
                         connectionDepartureTime - departureTimeSeconds - nodeDepartureInNodesAccessIte->second.time <= parameters.getMaxFirstWaitingTimeSeconds()
                       )
-- 
2.43.0


From 620874b531dcb9f42d6a0dfad4859481e1990670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:16 +0000
Subject: [PATCH 07/27] fix: keep transfers and legs consistent when optimizing
 a journey

---
 .../src/optimize_journey.cpp                  | 20 +++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/connection_scan_algorithm/src/optimize_journey.cpp b/connection_scan_algorithm/src/optimize_journey.cpp
index ff60bc9..54cec52 100644
--- a/connection_scan_algorithm/src/optimize_journey.cpp
+++ b/connection_scan_algorithm/src/optimize_journey.cpp
@@ -209,15 +209,10 @@ namespace TrRouting
             else
             {
               usedOptimizationCases.push_back(1);
-              if (toJourneyStepIdx - fromJourneyStepIdx == 1)
-              {
-                journey.erase(journey.begin() + toJourneyStepIdx);
-              }
-              else if (toJourneyStepIdx - fromJourneyStepIdx > 1) // could not split correctly...
-              {
-                journey.erase(journey.begin() + fromJourneyStepIdx + 1, journey.begin() + toJourneyStepIdx);
-              }
+              // The traveller now leaves the first line where the superfluous line was left, so the following transfer is the same
               journey[fromJourneyStepIdx].setFinalExitConnection(connection);
+              journey[fromJourneyStepIdx].copyTransferTimeDistance(journey[toJourneyStepIdx]);
+              journey.erase(journey.begin() + fromJourneyStepIdx + 1, journey.begin() + toJourneyStepIdx + 1);
 
               break;
             }
@@ -246,7 +241,8 @@ namespace TrRouting
             {
               usedOptimizationCases.push_back(2);
               journey[toJourneyStepIdx].setFinalEnterConnection(connection);
-              journey[toJourneyStepIdx].setTransferTimeDistance(0,0);
+              journey[fromJourneyStepIdx].setTransferTimeDistance(0,0);
+              journey.erase(journey.begin() + fromJourneyStepIdx + 1, journey.begin() + toJourneyStepIdx);
               break;
             }
           }
@@ -275,7 +271,8 @@ namespace TrRouting
             {
               usedOptimizationCases.push_back(3);
               journey[fromJourneyStepIdx].setFinalExitConnection(connection);
-              journey[toJourneyStepIdx].setTransferTimeDistance(0,0);
+              journey[fromJourneyStepIdx].setTransferTimeDistance(0,0);
+              journey.erase(journey.begin() + fromJourneyStepIdx + 1, journey.begin() + toJourneyStepIdx);
               break;
             }
           }
@@ -321,6 +318,9 @@ namespace TrRouting
                 usedOptimizationCases.push_back(4);
                 journey[fromJourneyStepIdx].setFinalExitConnection(exitConnection.value());
                 journey[toJourneyStepIdx].setFinalEnterConnection(connection);
+                journey[fromJourneyStepIdx].setTransferTimeDistance(0,0);
+                journey.erase(journey.begin() + fromJourneyStepIdx + 1, journey.begin() + toJourneyStepIdx);
+                break;
               }
               else
               {
-- 
2.43.0


From d1856a97ddca29025772e939c7768f1e748f2097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:10 +0000
Subject: [PATCH 08/27] fix: start the transfer walking distance total at 0

---
 connection_scan_algorithm/src/reverse_journey.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/connection_scan_algorithm/src/reverse_journey.cpp b/connection_scan_algorithm/src/reverse_journey.cpp
index 32ad0f6..86bb2d9 100644
--- a/connection_scan_algorithm/src/reverse_journey.cpp
+++ b/connection_scan_algorithm/src/reverse_journey.cpp
@@ -31,7 +31,7 @@ namespace TrRouting
     int totalTransferWaitingTime { 0}; int inVehicleTime          {-1};
     int totalDistance            { 0}; int distance               {-1};
     int inVehicleDistance        {-1}; int totalInVehicleDistance { 0}; int totalWalkingDistance { 0};
-    int totalTransferDistance    {-1}; int accessDistance         { 0}; int egressDistance       { 0};
+    int totalTransferDistance    { 0}; int accessDistance         { 0}; int egressDistance       { 0};
     int accessWalkingTime      {-1};
     int transferTime             {-1}; int egressWalkingTime      {-1};
     int waitingTime              {-1}; int accessWaitingTime      {-1};
-- 
2.43.0


From d3115ae63178b0937dd6bf419f4f62c1649e45bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:29 +0000
Subject: [PATCH 09/27] fix: keep the distance totals unknown once a leg
 distance is unknown

---
 connection_scan_algorithm/src/reverse_journey.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/connection_scan_algorithm/src/reverse_journey.cpp b/connection_scan_algorithm/src/reverse_journey.cpp
index 86bb2d9..6df4254 100644
--- a/connection_scan_algorithm/src/reverse_journey.cpp
+++ b/connection_scan_algorithm/src/reverse_journey.cpp
@@ -121,7 +121,10 @@ namespace TrRouting
                     {
                       inVehicleDistance += journeyStepTrip.path.segmentsDistanceMeters[seqI];
                     }
-                  totalDistance += inVehicleDistance;
+                  if (totalDistance != -1) // unknown as soon as one leg is unknown
+                    {
+                      totalDistance += inVehicleDistance;
+                    }
                   if (journeyStepTrip.line.mode.isTransferable())
                     {
                       totalWalkingDistance     += inVehicleDistance;
@@ -129,7 +132,7 @@ namespace TrRouting
                       totalTransferDistance    += inVehicleDistance;
                       totalTransferWalkingTime += inVehicleTime;
                     }
-                  else
+                  else if (totalInVehicleDistance != -1)
                     {
                       totalInVehicleDistance += inVehicleDistance;
                     }
-- 
2.43.0


From f14c29dfeb15e0d58081370d5cb97d00f8fb5aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:27 +0000
Subject: [PATCH 10/27] fix: count the time on transferable lines only once, as
 in-vehicle time

---
 connection_scan_algorithm/src/reverse_journey.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/connection_scan_algorithm/src/reverse_journey.cpp b/connection_scan_algorithm/src/reverse_journey.cpp
index 6df4254..a70285c 100644
--- a/connection_scan_algorithm/src/reverse_journey.cpp
+++ b/connection_scan_algorithm/src/reverse_journey.cpp
@@ -128,9 +128,7 @@ namespace TrRouting
                   if (journeyStepTrip.line.mode.isTransferable())
                     {
                       totalWalkingDistance     += inVehicleDistance;
-                      totalWalkingTime         += inVehicleTime;
                       totalTransferDistance    += inVehicleDistance;
-                      totalTransferWalkingTime += inVehicleTime;
                     }
                   else if (totalInVehicleDistance != -1)
                     {
-- 
2.43.0


From cb5e3d7dc0561cbd917f691812f702d679491d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:33 +0000
Subject: [PATCH 11/27] fix: never overwrite an equally late reverse label, so
 that journeys cannot become cyclic

---
 connection_scan_algorithm/src/reverse_calculation.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/connection_scan_algorithm/src/reverse_calculation.cpp b/connection_scan_algorithm/src/reverse_calculation.cpp
index 3704a5a..7c493b2 100644
--- a/connection_scan_algorithm/src/reverse_calculation.cpp
+++ b/connection_scan_algorithm/src/reverse_calculation.cpp
@@ -135,7 +135,7 @@ namespace TrRouting
 
                 if (footpathTravelTime <= parameters.getMaxTransferWalkingTravelTimeSeconds())
                 {                  
-                  if (connectionDepartureTime - footpathTravelTime - connectionMinWaitingTimeSeconds >= nodesReverseTentativeTime.at(transferableNode.node.uid))
+                  if (connectionDepartureTime - footpathTravelTime - connectionMinWaitingTimeSeconds > nodesReverseTentativeTime.at(transferableNode.node.uid))
                   {
                     footpathDistance = nodeDeparture.reverseTransferableNodes.at(footpathIndex).distance;
                     nodesReverseTentativeTime[transferableNode.node.uid] = connectionDepartureTime - footpathTravelTime - connectionMinWaitingTimeSeconds;
@@ -338,7 +338,7 @@ namespace TrRouting
 
                 if (footpathTravelTime <= parameters.getMaxTransferWalkingTravelTimeSeconds())
                 {
-                  if (connectionDepartureTime - footpathTravelTime - connectionMinWaitingTimeSeconds >= nodesReverseTentativeTime.at(transferableNode.node.uid))
+                  if (connectionDepartureTime - footpathTravelTime - connectionMinWaitingTimeSeconds > nodesReverseTentativeTime.at(transferableNode.node.uid))
                   {
                     footpathDistance = nodeDeparture.reverseTransferableNodes.at(footpathIndex).distance;
                     nodesReverseTentativeTime[transferableNode.node.uid] = connectionDepartureTime - footpathTravelTime - connectionMinWaitingTimeSeconds;
-- 
2.43.0


From 54be5bb51022952ef714300df90b3d5b9eef2e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:11 +0000
Subject: [PATCH 12/27] fix: forget the cached connection sets when the data
 they refer to is refreshed

---
 include/connection_cache.hpp |  4 ++++
 src/connection_cache.cpp     | 11 +++++++++++
 src/transit_data.cpp         | 21 +++++++++++++++------
 3 files changed, 30 insertions(+), 6 deletions(-)

diff --git a/include/connection_cache.hpp b/include/connection_cache.hpp
index 5ed4e2d..aabd051 100644
--- a/include/connection_cache.hpp
+++ b/include/connection_cache.hpp
@@ -28,6 +28,8 @@ class ScenarioConnectionCache {
     
     virtual std::optional<std::shared_ptr<ConnectionSet>> get(boost::uuids::uuid uuid) const = 0;
     virtual void set(boost::uuids::uuid uuid, std::shared_ptr<ConnectionSet> cache) = 0;
+    // Forget all connection sets, must be called when the transit data they refer to changes
+    virtual void clear() = 0;
 };
 
 /**
@@ -45,6 +47,7 @@ class ScenarioConnectionCacheOne : public ScenarioConnectionCache {
 
     virtual std::optional<std::shared_ptr<ConnectionSet>> get(boost::uuids::uuid uuid) const;
     virtual void set(boost::uuids::uuid uuid, std::shared_ptr<ConnectionSet> cache);
+    virtual void clear();
 
   private:
   mutable std::shared_mutex mutex; //Reader/Writer locking
@@ -68,6 +71,7 @@ class ScenarioConnectionCacheAll : public ScenarioConnectionCache {
 
     virtual std::optional<std::shared_ptr<ConnectionSet>> get(boost::uuids::uuid uuid) const;
     virtual void set(boost::uuids::uuid uuid, std::shared_ptr<ConnectionSet> cache);
+    virtual void clear();
 
   private:
     mutable std::shared_mutex mutex; //Reader/Writer locking
diff --git a/src/connection_cache.cpp b/src/connection_cache.cpp
index 87c9959..02f0882 100644
--- a/src/connection_cache.cpp
+++ b/src/connection_cache.cpp
@@ -22,6 +22,12 @@ namespace TrRouting {
     lastConnection = cache;
   }
 
+  void ScenarioConnectionCacheOne::clear() {
+    std::unique_lock lock(mutex); //Exclusive lock when writing
+    lastUuid.reset();
+    lastConnection.reset();
+  }
+
   // ScenarioConnectionCacheAll
   std::optional<std::shared_ptr<ConnectionSet>> ScenarioConnectionCacheAll::get(boost::uuids::uuid uuid) const {
     std::shared_lock lock(mutex); //Sharing lock when reading
@@ -39,4 +45,9 @@ namespace TrRouting {
     std::unique_lock lock(mutex); //Exclusive lock when writing
     connectionSets[uuid] = cache;
   }
+
+  void ScenarioConnectionCacheAll::clear() {
+    std::unique_lock lock(mutex); //Exclusive lock when writing
+    connectionSets.clear();
+  }
 }
diff --git a/src/transit_data.cpp b/src/transit_data.cpp
index 587bc16..e5961b4 100644
--- a/src/transit_data.cpp
+++ b/src/transit_data.cpp
@@ -23,12 +23,7 @@ namespace TrRouting {
   TransitData::TransitData(DataFetcher& fetcher, bool cacheAllScenarios) :
     dataFetcher(fetcher)
   {
-    DataStatus loadStatus = loadAllData();
-    if (loadStatus != DataStatus::READY) {
-      //TODO For now, don't throw on error because Transit server expect to get the dataStatus
-      //throw std::exception("Incomplete transit data");
-      spdlog::error("TransitData loading had error, object will not be valid");
-    }
+    // The cache needs to exist before the data is loaded, since the update functions invalidate it
     if (cacheAllScenarios) {
       scenarioConnectionCache = new ScenarioConnectionCacheAll();
       spdlog::info("Will cache all connectionSets");
@@ -36,6 +31,12 @@ namespace TrRouting {
       scenarioConnectionCache = new ScenarioConnectionCacheOne();
       spdlog::info("Will cache one connectionSet");
     }
+    DataStatus loadStatus = loadAllData();
+    if (loadStatus != DataStatus::READY) {
+      //TODO For now, don't throw on error because Transit server expect to get the dataStatus
+      //throw std::exception("Incomplete transit data");
+      spdlog::error("TransitData loading had error, object will not be valid");
+    }
   }
 
   TransitData::~TransitData() {
@@ -77,6 +78,7 @@ namespace TrRouting {
 
   int TransitData::updateNodes(std::string customPath)
   {
+    scenarioConnectionCache->clear();
     return dataFetcher.getNodes(nodes, customPath);
   }
 
@@ -107,31 +109,38 @@ namespace TrRouting {
   */ 
   int TransitData::updateAgencies(std::string customPath)
   {
+    scenarioConnectionCache->clear();
     return dataFetcher.getAgencies(agencies, customPath);
   }
 
   int TransitData::updateServices(std::string customPath)
   {
+    scenarioConnectionCache->clear();
     return dataFetcher.getServices(services, customPath);
   }
 
   int TransitData::updateLines(std::string customPath)
   {
+    scenarioConnectionCache->clear();
     return dataFetcher.getLines(lines, getAgencies(), getModes(), customPath);
   }
 
   int TransitData::updatePaths(std::string customPath)
   {
+    scenarioConnectionCache->clear();
     return dataFetcher.getPaths(paths, getLines(), getNodes(), customPath);
   }
 
   int TransitData::updateScenarios(std::string customPath)
   {
+    scenarioConnectionCache->clear();
     return dataFetcher.getScenarios(scenarios, getServices(), getLines(), getAgencies(), getNodes(), getModes(), customPath);
   }
 
   int TransitData::updateSchedules(std::string customPath)
   {
+    // The cached connection sets refer to the trips and connections that will be replaced
+    scenarioConnectionCache->clear();
     int ret =  dataFetcher.getSchedules(
       trips,
       getLines(),
-- 
2.43.0


From cc91a121a648009624e24ecd1c7d56a5483b3450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:11 +0000
Subject: [PATCH 13/27] fix: evaluate the data status for each request, as it
 can change with a cache refresh

---
 .../src/transit_routing_http_server.cpp           | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/connection_scan_algorithm/src/transit_routing_http_server.cpp b/connection_scan_algorithm/src/transit_routing_http_server.cpp
index 67cc566..2077d6e 100644
--- a/connection_scan_algorithm/src/transit_routing_http_server.cpp
+++ b/connection_scan_algorithm/src/transit_routing_http_server.cpp
@@ -123,8 +123,7 @@ int main(int argc, char** argv) {
   spdlog::info("preparing calculator...");
   TransitData transitData(*fetcher, programOptions.cacheAllConnectionSets);
   //TODO We wanted to handle error in the constructor, but later part of this code expect a dataStatus
-  // leaving as a todo
-  DataStatus dataStatus = transitData.getDataStatus();
+  // leaving as a todo. The status is queried for each request, since it can change with /updateCache
 
   // Selection which geofilter to use. OSRM is the default one. Euclidean mostly used for debugging and testing
   GeoFilter *geoFilter = 0;
@@ -299,10 +298,10 @@ int main(int argc, char** argv) {
 
   // Routing request for a single origin destination
   // TODO Copy-pasted and adapted from /route/v1/transit. There's still a lot of common code. Application code should be extracted to common functions outside the web server
-  server.resource["^/v2/route[/]?$"]["GET"]=[&server, &dataStatus, &transitData, &geoFilter](std::shared_ptr<HttpServer::Response> serverResponse, std::shared_ptr<HttpServer::Request> request) {
+  server.resource["^/v2/route[/]?$"]["GET"]=[&server, &transitData, &geoFilter](std::shared_ptr<HttpServer::Response> serverResponse, std::shared_ptr<HttpServer::Request> request) {
     // Have a global id to match the requests in the logs
     static int routeRequestId = 0;
-    std::string response = getFastErrorResponse(dataStatus);
+    std::string response = getFastErrorResponse(transitData.getDataStatus());
 
     if (!response.empty()) {
       *serverResponse << "HTTP/1.1 200 OK\r\nAccess-Control-Allow-Origin: *\r\nContent-Type: application/json; charset=utf-8\r\nContent-Length: " << response.length() << "\r\n\r\n" << response;
@@ -369,11 +368,11 @@ int main(int argc, char** argv) {
 
   // Request a summary of lines data for a route
   // TODO Copy pasted from v2/route. There's a lot in common, it should be extracted to common class, just the response parser is different
-  server.resource["^/v2/summary[/]?$"]["GET"]=[&server, &dataStatus, &transitData, &geoFilter](std::shared_ptr<HttpServer::Response> serverResponse, std::shared_ptr<HttpServer::Request> request) {
+  server.resource["^/v2/summary[/]?$"]["GET"]=[&server, &transitData, &geoFilter](std::shared_ptr<HttpServer::Response> serverResponse, std::shared_ptr<HttpServer::Request> request) {
     // Have a global id to match the requests in the logs
     static int summaryRequestId = 0;
 
-    std::string response = getFastErrorResponse(dataStatus);
+    std::string response = getFastErrorResponse(transitData.getDataStatus());
 
     if (!response.empty()) {
       *serverResponse << "HTTP/1.1 200 OK\r\nAccess-Control-Allow-Origin: *\r\nContent-Type: application/json; charset=utf-8\r\nContent-Length: " << response.length() << "\r\n\r\n" << response;
@@ -440,11 +439,11 @@ int main(int argc, char** argv) {
 
   // Routing request for a single origin destination
   // TODO Copy-pasted and adapted from /route/v1/transit. There's still a lot of common code. Application code should be extracted to common functions outside the web server
-  server.resource["^/v2/accessibility[/]?$"]["GET"]=[&server, &dataStatus, &transitData, &geoFilter](std::shared_ptr<HttpServer::Response> serverResponse, std::shared_ptr<HttpServer::Request> request) {
+  server.resource["^/v2/accessibility[/]?$"]["GET"]=[&server, &transitData, &geoFilter](std::shared_ptr<HttpServer::Response> serverResponse, std::shared_ptr<HttpServer::Request> request) {
     // Have a global id to match the requests in the logs
     static int accessibilityRequestId = 0;
 
-    std::string response = getFastErrorResponse(dataStatus);
+    std::string response = getFastErrorResponse(transitData.getDataStatus());
 
     if (!response.empty()) {
       *serverResponse << "HTTP/1.1 200 OK\r\nAccess-Control-Allow-Origin: *\r\nContent-Type: application/json; charset=utf-8\r\nContent-Length: " << response.length() << "\r\n\r\n" << response;
-- 
2.43.0


From 15a9dc8c56954a16054564486ae6f85649d01d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:38 +0000
Subject: [PATCH 14/27] fix: answer the documented error codes when the
 accessibility place is missing or invalid

---
 connection_scan_algorithm/src/transit_routing_http_server.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/connection_scan_algorithm/src/transit_routing_http_server.cpp b/connection_scan_algorithm/src/transit_routing_http_server.cpp
index 2077d6e..c3dbd0a 100644
--- a/connection_scan_algorithm/src/transit_routing_http_server.cpp
+++ b/connection_scan_algorithm/src/transit_routing_http_server.cpp
@@ -91,9 +91,11 @@ std::string getResponseCode(ParameterException::Type type)
     case ParameterException::Type::MISSING_SCENARIO: return "MISSING_PARAM_SCENARIO";
     case ParameterException::Type::MISSING_ORIGIN: return "MISSING_PARAM_ORIGIN";
     case ParameterException::Type::MISSING_DESTINATION: return "MISSING_PARAM_DESTINATION";
+    case ParameterException::Type::MISSING_PLACE: return "MISSING_PARAM_PLACE";
     case ParameterException::Type::MISSING_TIME_OF_TRIP: return "MISSING_PARAM_TIME_OF_TRIP";
     case ParameterException::Type::INVALID_ORIGIN: return "INVALID_ORIGIN";
     case ParameterException::Type::INVALID_DESTINATION: return "INVALID_DESTINATION";
+    case ParameterException::Type::INVALID_PLACE: return "INVALID_PLACE";
     case ParameterException::Type::INVALID_NUMERICAL_DATA: return "INVALID_NUMERICAL_DATA";
     default: return "PARAM_ERROR_UNKNOWN";
   }
-- 
2.43.0


From d174df5b51cbfc78a28e8e17742e9dde0d340412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:26 +0000
Subject: [PATCH 15/27] fix: reject coordinates and numbers with trailing
 characters or that are not finite

---
 .../parameters/accessibility_parameters.cpp   | 14 ++------
 .../src/parameters/common_parameters.cpp      | 35 ++++++++++++++++++-
 .../src/parameters/route_parameters.cpp       | 26 +++-----------
 include/parameters.hpp                        |  9 +++++
 4 files changed, 49 insertions(+), 35 deletions(-)

diff --git a/connection_scan_algorithm/src/parameters/accessibility_parameters.cpp b/connection_scan_algorithm/src/parameters/accessibility_parameters.cpp
index c1a9c30..183e48a 100644
--- a/connection_scan_algorithm/src/parameters/accessibility_parameters.cpp
+++ b/connection_scan_algorithm/src/parameters/accessibility_parameters.cpp
@@ -43,8 +43,6 @@ namespace TrRouting
   {
     std::optional<Point> place;
 
-    std::vector<std::string> latitudeLongitudeVector;
-
     // TODO Replace manually parsing parameters by a library that does this
     for (auto & parameterWithValue : parameters)
     {
@@ -53,16 +51,8 @@ namespace TrRouting
       // place coordinates:
       if (parameterWithValue.first == "place")
       {
-        try
-        {
-          boost::split(latitudeLongitudeVector, parameterWithValue.second, boost::is_any_of(","));
-          if (latitudeLongitudeVector.size() != 2)
-          {
-            throw ParameterException(ParameterException::Type::INVALID_PLACE);
-          }
-          place = Point(std::stod(latitudeLongitudeVector[1]), std::stod(latitudeLongitudeVector[0]));
-        }
-        catch (...)
+        place = CommonParameters::getPointValue(parameterWithValue.second);
+        if (!place.has_value())
         {
           throw ParameterException(ParameterException::Type::INVALID_PLACE);
         }
diff --git a/connection_scan_algorithm/src/parameters/common_parameters.cpp b/connection_scan_algorithm/src/parameters/common_parameters.cpp
index 7723ea8..f564238 100644
--- a/connection_scan_algorithm/src/parameters/common_parameters.cpp
+++ b/connection_scan_algorithm/src/parameters/common_parameters.cpp
@@ -1,3 +1,4 @@
+#include <cmath>
 #include <boost/uuid/string_generator.hpp>
 #include <boost/algorithm/string.hpp>
 
@@ -56,7 +57,13 @@ namespace TrRouting
   int CommonParameters::getIntegerValue(std::string strValue) {
     try
     {
-      return std::stoi(strValue);
+      size_t parsedLength = 0;
+      int value = std::stoi(strValue, &parsedLength);
+      if (parsedLength != strValue.size())
+      {
+        throw ParameterException(ParameterException::Type::INVALID_NUMERICAL_DATA);
+      }
+      return value;
     }
     catch (...)
     {
@@ -65,6 +72,32 @@ namespace TrRouting
     }
   }
 
+  std::optional<Point> CommonParameters::getPointValue(const std::string &strValue) {
+    std::vector<std::string> longitudeLatitudeVector;
+    boost::split(longitudeLatitudeVector, strValue, boost::is_any_of(","));
+    if (longitudeLatitudeVector.size() != 2)
+    {
+      return std::nullopt;
+    }
+    try
+    {
+      size_t longitudeLength = 0;
+      size_t latitudeLength = 0;
+      double longitude = std::stod(longitudeLatitudeVector[0], &longitudeLength);
+      double latitude = std::stod(longitudeLatitudeVector[1], &latitudeLength);
+      if (longitudeLength != longitudeLatitudeVector[0].size() || latitudeLength != longitudeLatitudeVector[1].size()
+        || !std::isfinite(longitude) || !std::isfinite(latitude))
+      {
+        return std::nullopt;
+      }
+      return Point(latitude, longitude);
+    }
+    catch (const std::exception &e)
+    {
+      return std::nullopt;
+    }
+  }
+
   CommonParameters CommonParameters::createCommonParameter(std::vector<std::pair<std::string, std::string>> &parameters, const std::map<boost::uuids::uuid, Scenario> &scenarios)
   {
     boost::uuids::string_generator uuidGenerator;
diff --git a/connection_scan_algorithm/src/parameters/route_parameters.cpp b/connection_scan_algorithm/src/parameters/route_parameters.cpp
index 0120005..663dff1 100644
--- a/connection_scan_algorithm/src/parameters/route_parameters.cpp
+++ b/connection_scan_algorithm/src/parameters/route_parameters.cpp
@@ -62,8 +62,6 @@ namespace TrRouting
     std::optional<Point> destination;
     bool alternatives = false;
 
-    std::vector<std::string> latitudeLongitudeVector;
-
     // TODO Replace manually parsing parameters by a library that does this
     for (auto & parameterWithValue : parameters)
     {
@@ -72,32 +70,16 @@ namespace TrRouting
       // origin and destination:
       if (parameterWithValue.first == "origin")
       {
-        try
-        {
-          boost::split(latitudeLongitudeVector, parameterWithValue.second, boost::is_any_of(","));
-          if (latitudeLongitudeVector.size() != 2)
-          {
-            throw ParameterException(ParameterException::Type::INVALID_ORIGIN);
-          }
-          origin = Point(std::stod(latitudeLongitudeVector[1]), std::stod(latitudeLongitudeVector[0]));
-        }
-        catch (...)
+        origin = CommonParameters::getPointValue(parameterWithValue.second);
+        if (!origin.has_value())
         {
           throw ParameterException(ParameterException::Type::INVALID_ORIGIN);
         }
       }
       else if (parameterWithValue.first == "destination")
       {
-        try
-        {
-          boost::split(latitudeLongitudeVector, parameterWithValue.second, boost::is_any_of(","));
-          if (latitudeLongitudeVector.size() != 2)
-          {
-            throw ParameterException(ParameterException::Type::INVALID_DESTINATION);
-          }
-          destination = Point(std::stod(latitudeLongitudeVector[1]), std::stod(latitudeLongitudeVector[0]));
-        }
-        catch (...)
+        destination = CommonParameters::getPointValue(parameterWithValue.second);
+        if (!destination.has_value())
         {
           throw ParameterException(ParameterException::Type::INVALID_DESTINATION);
         }
diff --git a/include/parameters.hpp b/include/parameters.hpp
index 2b741e0..24be823 100644
--- a/include/parameters.hpp
+++ b/include/parameters.hpp
@@ -152,6 +152,15 @@ namespace TrRouting
        * @return int The converted integer
        */
       static int getIntegerValue(std::string strValue);
+
+      /**
+       * @brief Helper function to get a point from a "longitude,latitude" string
+       *
+       * @param strValue Coordinates string value
+       * @return The point, or nothing if the string is not made of two
+       * comma-separated finite numbers
+       */
+      static std::optional<Point> getPointValue(const std::string &strValue);
   };
 
   class RouteParameters : public CommonParameters {
-- 
2.43.0


From ef674e04a140512294210cdf59c050a32c19bf85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:05 +0000
Subject: [PATCH 16/27] fix: report a malformed scenario id like an unknown
 scenario

---
 .../src/parameters/common_parameters.cpp              | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/connection_scan_algorithm/src/parameters/common_parameters.cpp b/connection_scan_algorithm/src/parameters/common_parameters.cpp
index f564238..997c99b 100644
--- a/connection_scan_algorithm/src/parameters/common_parameters.cpp
+++ b/connection_scan_algorithm/src/parameters/common_parameters.cpp
@@ -138,7 +138,16 @@ namespace TrRouting
       // scenario:
       else if (parameterWithValue.first == "scenario_id")
       {
-        boost::uuids::uuid scenarioUuid  = uuidGenerator(parameterWithValue.second);
+        boost::uuids::uuid scenarioUuid;
+        try
+        {
+          scenarioUuid = uuidGenerator(parameterWithValue.second);
+        }
+        catch (const std::exception &e)
+        {
+          // Not a valid uuid, so this cannot be an existing scenario
+          throw ParameterException(ParameterException::Type::MISSING_SCENARIO);
+        }
 
         auto scenarioIte = scenarios.find(scenarioUuid);
         if (scenarioIte != scenarios.end())
-- 
2.43.0


From 6b8242a547976d2f9f3b4fdc5a931f46255a67a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:36 +0000
Subject: [PATCH 17/27] fix: answer cache updates without any known name, and
 name only the refreshed caches

---
 .../src/transit_routing_http_server.cpp       | 39 +++++++------------
 1 file changed, 15 insertions(+), 24 deletions(-)

diff --git a/connection_scan_algorithm/src/transit_routing_http_server.cpp b/connection_scan_algorithm/src/transit_routing_http_server.cpp
index c3dbd0a..36a501f 100644
--- a/connection_scan_algorithm/src/transit_routing_http_server.cpp
+++ b/connection_scan_algorithm/src/transit_routing_http_server.cpp
@@ -15,6 +15,7 @@
 #include <boost/property_tree/json_parser.hpp>
 #include <boost/property_tree/ptree.hpp>
 #include <boost/algorithm/string.hpp>
+#include <nlohmann/json.hpp>
 
 #include "cache_fetcher.hpp"
 #include "calculation_time.hpp"
@@ -147,9 +148,6 @@ int main(int argc, char** argv) {
   server.resource["^/updateCache[/]?$"]["GET"]=[&server, &transitData](std::shared_ptr<HttpServer::Response> serverResponse, std::shared_ptr<HttpServer::Request> request) {
 
     std::string              response {""};
-    std::vector<std::string> parametersWithValues;
-    std::vector<std::string> parameterWithValueVector;
-    std::string              queryString;
     std::string              customCacheDirectoryPath {""};
     std::string              cacheNamesStr {""};
     std::vector<std::string> cacheNames;
@@ -159,34 +157,27 @@ int main(int argc, char** argv) {
     auto queryFields = request->parse_query_string();
     for(auto &field : queryFields)
     {
-      parametersWithValues.push_back(field.first + "=" + field.second);
-    }
-
-    for(auto & parameterWithValue : parametersWithValues)
-    {
-      boost::split(parameterWithValueVector, parameterWithValue, boost::is_any_of("="));
-
-      if (parameterWithValueVector[0] == "names" || parameterWithValueVector[0] == "caches" || parameterWithValueVector[0] == "cache_names" || parameterWithValueVector[0] == "name" || parameterWithValueVector[0] == "cache" || parameterWithValueVector[0] == "cache_name")
+      if (field.first == "names" || field.first == "caches" || field.first == "cache_names" || field.first == "name" || field.first == "cache" || field.first == "cache_name")
       {
 
-        boost::split(cacheNamesVector, parameterWithValueVector[1], boost::is_any_of(","));
+        boost::split(cacheNamesVector, field.second, boost::is_any_of(","));
         for(std::string cacheName : cacheNamesVector)
         {
           cacheNames.push_back(cacheName);
         }
         continue;
       }
-      if (parameterWithValueVector[0] == "path" || parameterWithValueVector[0] == "custom_path" || parameterWithValueVector[0] == "custom_cache_path")
+      if (field.first == "path" || field.first == "custom_path" || field.first == "custom_cache_path")
       {
-        customCacheDirectoryPath = parameterWithValueVector[1];
+        customCacheDirectoryPath = field.second;
         continue;
       }
     }
 
-    bool correctCacheName {false};
     //TODO Merge this and the preparations.cpp code
     for(std::string cacheName : cacheNames)
     {
+      bool correctCacheName {false};
       if (cacheName == "data_sources" || cacheName == "all")
       {
         correctCacheName = true;
@@ -252,22 +243,22 @@ int main(int argc, char** argv) {
         transitData.updateSchedules(customCacheDirectoryPath);
       }
 
-      //TODO This is incorrect if we have multiple name and the second one is wrong, correctCacheName is always true
       if (correctCacheName)
       {
+        if (!cacheNamesStr.empty())
+        {
+          cacheNamesStr += ",";
+        }
         cacheNamesStr += cacheName;
-        cacheNamesStr += ",";
       }
     }
 
-    //TODO do this only if we had at least one correct name
-    //Reinit some data after the update
-    // TODO Just the schedules???
-    if (cacheNames.size() > 0)
+    // Only correct names are in the string
+    if (!cacheNamesStr.empty())
     {
-      // Remove last ","
-      cacheNamesStr.pop_back();
-      response = "{\"status\": \"success\", \"cache_names\": \"" + cacheNamesStr + "\", \"custom_cache_path\": \"" + customCacheDirectoryPath + "\"}";
+      // The path comes from the request and can contain any character
+      std::string customPathJson = nlohmann::json(customCacheDirectoryPath).dump(-1, ' ', false, nlohmann::json::error_handler_t::replace);
+      response = "{\"status\": \"success\", \"cache_names\": \"" + cacheNamesStr + "\", \"custom_cache_path\": " + customPathJson + "}";
     }
     else
     {
-- 
2.43.0


From 52afa4dcbcbaffffd4496acd4ae6d25fb6762b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:07 +0000
Subject: [PATCH 18/27] fix: also refresh the caches that refer to the objects
 replaced by a cache update

---
 .../src/transit_routing_http_server.cpp       | 134 +++++++++---------
 1 file changed, 65 insertions(+), 69 deletions(-)

diff --git a/connection_scan_algorithm/src/transit_routing_http_server.cpp b/connection_scan_algorithm/src/transit_routing_http_server.cpp
index 36a501f..85eaeed 100644
--- a/connection_scan_algorithm/src/transit_routing_http_server.cpp
+++ b/connection_scan_algorithm/src/transit_routing_http_server.cpp
@@ -5,6 +5,7 @@
 #define BOOST_SPIRIT_THREADSAFE
 
 #include <vector>
+#include <set>
 #include <algorithm>
 #include <string>
 #include <iterator>
@@ -174,77 +175,14 @@ int main(int argc, char** argv) {
       }
     }
 
-    //TODO Merge this and the preparations.cpp code
-    for(std::string cacheName : cacheNames)
+    // Keep only the known cache names
+    const std::set<std::string> knownCacheNames {"all", "data_sources", "persons", "od_trips", "agencies", "services", "nodes", "lines", "paths", "scenarios", "schedules"};
+    std::set<std::string> cachesToUpdate;
+    for(const std::string & cacheName : cacheNames)
     {
-      bool correctCacheName {false};
-      if (cacheName == "data_sources" || cacheName == "all")
-      {
-        correctCacheName = true;
-        transitData.updateDataSources(customCacheDirectoryPath);
-      }
-      /* TODO #167
-      if (cacheName == "households" || cacheName == "all")
-      {
-        correctCacheName = true;
-        transitData.updateHouseholds(customCacheDirectoryPath);
-      }
-      */
-      if (cacheName == "persons" || cacheName == "all")
-      {
-        correctCacheName = true;
-        transitData.updatePersons(customCacheDirectoryPath);
-      }
-      if (cacheName == "od_trips" || cacheName == "all")
-      {
-        correctCacheName = true;
-        transitData.updateOdTrips(customCacheDirectoryPath);
-      }
-      /* TODO #167
-      if (cacheName == "places" || cacheName == "all")
-      {
-        correctCacheName = true;
-        transitData.updatePlaces(customCacheDirectoryPath);
-      }
-      */
-      if (cacheName == "agencies" || cacheName == "all")
-      {
-        correctCacheName = true;
-        transitData.updateAgencies(customCacheDirectoryPath);
-      }
-      if (cacheName == "services" || cacheName == "all")
-      {
-        correctCacheName = true;
-        transitData.updateServices(customCacheDirectoryPath);
-      }
-      if (cacheName == "nodes" || cacheName == "all")
-      {
-        correctCacheName = true;
-        transitData.updateNodes(customCacheDirectoryPath);
-      }
-      if (cacheName == "lines" || cacheName == "all")
-      {
-        correctCacheName = true;
-        transitData.updateLines(customCacheDirectoryPath);
-      }
-      if (cacheName == "paths" || cacheName == "all")
-      {
-        correctCacheName = true;
-        transitData.updatePaths(customCacheDirectoryPath);
-      }
-      if (cacheName == "scenarios" || cacheName == "all")
-      {
-        correctCacheName = true;
-        transitData.updateScenarios(customCacheDirectoryPath);
-      }
-      if (cacheName == "schedules" || cacheName == "all")
-      {
-        correctCacheName = true;
-        transitData.updateSchedules(customCacheDirectoryPath);
-      }
-
-      if (correctCacheName)
+      if (knownCacheNames.count(cacheName) > 0)
       {
+        cachesToUpdate.insert(cacheName);
         if (!cacheNamesStr.empty())
         {
           cacheNamesStr += ",";
@@ -253,6 +191,64 @@ int main(int argc, char** argv) {
       }
     }
 
+    // A cache refers to objects of other caches, so it needs to be updated when
+    // one of these caches is. Update in the same order as the initial load.
+    auto needsUpdate = [&cachesToUpdate](const std::string & cacheName, const std::vector<std::string> & dependencies) {
+      bool update = cachesToUpdate.count("all") > 0 || cachesToUpdate.count(cacheName) > 0;
+      for(const std::string & dependency : dependencies)
+      {
+        update = update || cachesToUpdate.count(dependency) > 0;
+      }
+      if (update)
+      {
+        cachesToUpdate.insert(cacheName);
+      }
+      return update;
+    };
+
+    //TODO Merge this and the preparations.cpp code
+    //TODO #167 households and places are not updated
+    if (needsUpdate("nodes", {}))
+    {
+      transitData.updateNodes(customCacheDirectoryPath);
+    }
+    if (needsUpdate("data_sources", {}))
+    {
+      transitData.updateDataSources(customCacheDirectoryPath);
+    }
+    if (needsUpdate("persons", {"data_sources"}))
+    {
+      transitData.updatePersons(customCacheDirectoryPath);
+    }
+    if (needsUpdate("od_trips", {"data_sources", "persons", "nodes"}))
+    {
+      transitData.updateOdTrips(customCacheDirectoryPath);
+    }
+    if (needsUpdate("agencies", {}))
+    {
+      transitData.updateAgencies(customCacheDirectoryPath);
+    }
+    if (needsUpdate("services", {}))
+    {
+      transitData.updateServices(customCacheDirectoryPath);
+    }
+    if (needsUpdate("lines", {"agencies"}))
+    {
+      transitData.updateLines(customCacheDirectoryPath);
+    }
+    if (needsUpdate("paths", {"lines", "nodes"}))
+    {
+      transitData.updatePaths(customCacheDirectoryPath);
+    }
+    if (needsUpdate("scenarios", {"services", "lines", "agencies", "nodes"}))
+    {
+      transitData.updateScenarios(customCacheDirectoryPath);
+    }
+    if (needsUpdate("schedules", {"agencies", "services", "lines", "paths"}))
+    {
+      transitData.updateSchedules(customCacheDirectoryPath);
+    }
+
     // Only correct names are in the string
     if (!cacheNamesStr.empty())
     {
-- 
2.43.0


From b347a210c49a87ecb69f552df58f2b3c26d7257e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:26 +0000
Subject: [PATCH 19/27] fix: do not keep od trips that refer to replaced nodes
 and persons when they are refreshed

---
 src/od_trips_cache_fetcher.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/od_trips_cache_fetcher.cpp b/src/od_trips_cache_fetcher.cpp
index e907b24..a84a0b6 100644
--- a/src/od_trips_cache_fetcher.cpp
+++ b/src/od_trips_cache_fetcher.cpp
@@ -93,6 +93,8 @@ namespace TrRouting
     using TCollection = odTripCollection::OdTripCollection;
     using cT          = odTrip::OdTrip;
 
+    ts.clear();
+
     std::string tStr  = "odTrips";
     std::string TStr  = "OdTrips";
 
-- 
2.43.0


From 1b9015690e6d6859e14c7ce7ff02f9c138b04263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:27 +0000
Subject: [PATCH 20/27] fix: skip the inconsistent trips of line cache files
 instead of terminating or reading outside the data

---
 src/trips_and_connections_cache_fetcher.cpp | 54 ++++++++++++++++++---
 1 file changed, 46 insertions(+), 8 deletions(-)

diff --git a/src/trips_and_connections_cache_fetcher.cpp b/src/trips_and_connections_cache_fetcher.cpp
index b1dfb94..50c37ff 100644
--- a/src/trips_and_connections_cache_fetcher.cpp
+++ b/src/trips_and_connections_cache_fetcher.cpp
@@ -63,7 +63,13 @@ namespace TrRouting
         for (const auto & schedule : schedules)
         {
           std::string serviceUuidStr = schedule.getServiceUuid();
-          auto & service  = services.at(uuidGenerator(serviceUuidStr));
+          auto serviceIter = services.find(uuidGenerator(serviceUuidStr));
+          if (serviceIter == services.end())
+          {
+            spdlog::error("Unknown service {} in line cache file {}", serviceUuidStr, cacheFilePath);
+            continue;
+          }
+          auto & service = serviceIter->second;
 
           const auto periods {schedule.getPeriods()};
           for (const auto & period : periods)
@@ -75,8 +81,41 @@ namespace TrRouting
               pathUuidStr  = capnpTrip.getPathUuid();
               tripUuid     = uuidGenerator(tripUuidStr);
               pathUuid     = uuidGenerator(pathUuidStr);
-              Path &path = paths.at(pathUuid);
-              
+              auto pathIter = paths.find(pathUuid);
+              if (pathIter == paths.end() || trips.count(tripUuid) > 0)
+              {
+                spdlog::error("Unknown path {} or duplicate trip {} in line cache file {}", pathUuidStr, tripUuidStr, cacheFilePath);
+                continue;
+              }
+              Path &path = pathIter->second;
+
+              nodeTimesCount             = capnpTrip.getNodeArrivalTimesSeconds().size();
+              auto arrivalTimesSeconds   = capnpTrip.getNodeArrivalTimesSeconds();
+              auto departureTimesSeconds = capnpTrip.getNodeDepartureTimesSeconds();
+              auto canBoards             = capnpTrip.getNodesCanBoard();
+              auto canUnboards           = capnpTrip.getNodesCanUnboard();
+
+              // The trip needs times and flags for each of its nodes, and the times cannot decrease
+              bool validTrip = nodeTimesCount > 0
+                && nodeTimesCount <= path.nodesRef.size()
+                && departureTimesSeconds.size() >= nodeTimesCount
+                && canBoards.size() >= nodeTimesCount
+                && canUnboards.size() >= nodeTimesCount;
+              int previousTimeSeconds {0};
+              for (unsigned long nodeTimeI = 0; validTrip && nodeTimeI + 1 < nodeTimesCount; nodeTimeI++)
+              {
+                if (departureTimesSeconds[nodeTimeI] < previousTimeSeconds || arrivalTimesSeconds[nodeTimeI + 1] < departureTimesSeconds[nodeTimeI])
+                {
+                  validTrip = false;
+                }
+                previousTimeSeconds = arrivalTimesSeconds[nodeTimeI + 1];
+              }
+              if (!validTrip)
+              {
+                spdlog::error("Invalid stop times for trip {} in line cache file {}", tripUuidStr, cacheFilePath);
+                continue;
+              }
+
               trips.emplace(tripUuid, Trip(tripUuid,
                                            line.agency,
                                            line,
@@ -92,11 +131,6 @@ namespace TrRouting
               // TODO This should probably be done in the Trip constructor (setting the back reference)
               path.tripsRef.push_back(trip);
 
-              nodeTimesCount             = capnpTrip.getNodeArrivalTimesSeconds().size();
-              auto arrivalTimesSeconds   = capnpTrip.getNodeArrivalTimesSeconds();
-              auto departureTimesSeconds = capnpTrip.getNodeDepartureTimesSeconds();
-              auto canBoards             = capnpTrip.getNodesCanBoard();
-              auto canUnboards           = capnpTrip.getNodesCanUnboard();
               trip.connectionDepartureTimes.resize(nodeTimesCount);
               // nodeTimesCount - 1, since we process node pairs, we have to stop and the second from last
               for (unsigned long nodeTimeI = 0; nodeTimeI < nodeTimesCount - 1; nodeTimeI++)
@@ -131,6 +165,10 @@ namespace TrRouting
         // TODO Do something about faulty cache files?
         spdlog::error("-- Error reading line cache file -- {}: {}", cacheFilePath, e.getDescription().cStr());
       }
+      catch (const std::exception& e)
+      {
+        spdlog::error("-- Error reading line cache file -- {}: {}", cacheFilePath, e.what());
+      }
 
       close(fd);
     }
-- 
2.43.0


From 29256e9ce6a0ef89a39e08506f888d691fd26580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:24 +0000
Subject: [PATCH 21/27] fix: do not terminate or read outside the lists of
 inconsistent node and od trip cache files

---
 src/nodes_cache_fetcher.cpp    | 17 +++++++++++++++++
 src/od_trips_cache_fetcher.cpp |  8 +++++++-
 2 files changed, 24 insertions(+), 1 deletion(-)

diff --git a/src/nodes_cache_fetcher.cpp b/src/nodes_cache_fetcher.cpp
index a5cd220..e0f0063 100644
--- a/src/nodes_cache_fetcher.cpp
+++ b/src/nodes_cache_fetcher.cpp
@@ -126,6 +126,12 @@ namespace TrRouting
 
         cNode::Reader capnpT = capnpTMessage.getRoot<cNode>();
         const unsigned int transferableNodesCount {capnpT.getTransferableNodesUuids().size()};
+        if (capnpT.getTransferableNodesTravelTimes().size() < transferableNodesCount || capnpT.getTransferableNodesDistances().size() < transferableNodesCount)
+        {
+          spdlog::error("Missing transferable nodes times or distances in file {}", nodeCacheFileNamePath);
+          close(fd);
+          continue;
+        }
 
         std::vector<NodeTimeDistance> transferableNodes;
         std::vector<NodeTimeDistance> reverseTransferableNodes;
@@ -145,6 +151,11 @@ namespace TrRouting
           
           int travelTime = capnpT.getTransferableNodesTravelTimes()[j];
           int distance = capnpT.getTransferableNodesDistances()[j];
+          if (travelTime < 0)
+          {
+            spdlog::error("Negative travel time to transferable node {} in file {}", nodeUuidStr, nodeCacheFileNamePath);
+            continue;
+          }
           transferableNodes.push_back(NodeTimeDistance(ts.at(nodeUuid),
                                                        travelTime,
                                                        distance));
@@ -168,6 +179,12 @@ namespace TrRouting
         close(fd);
         return -EBADMSG;
       }
+      catch (const std::exception& e)
+      {
+        spdlog::error("-- Error reading node cache file -- {}: {}", nodeCacheFileNamePath, e.what());
+        close(fd);
+        return -EINVAL;
+      }
       close(fd);
     }
 
diff --git a/src/od_trips_cache_fetcher.cpp b/src/od_trips_cache_fetcher.cpp
index a84a0b6..4302eed 100644
--- a/src/od_trips_cache_fetcher.cpp
+++ b/src/od_trips_cache_fetcher.cpp
@@ -154,6 +154,13 @@ namespace TrRouting
             destination->longitude    = ((double)capnpT.getDestinationLongitude()) / 1000000.0;
 
             const unsigned int originNodesCount {capnpT.getOriginNodesUuids().size()};
+            const unsigned int destinationNodesCount {capnpT.getDestinationNodesUuids().size()};
+            if (capnpT.getOriginNodesTravelTimes().size() < originNodesCount || capnpT.getOriginNodesDistances().size() < originNodesCount
+              || capnpT.getDestinationNodesTravelTimes().size() < destinationNodesCount || capnpT.getDestinationNodesDistances().size() < destinationNodesCount)
+            {
+              spdlog::error("Missing nodes times or distances for od trip {} in file {}", uuid, filePath);
+              continue;
+            }
             std::vector<NodeTimeDistance> originNodes;
             for (unsigned int j = 0; j < originNodesCount; j++)
             {
@@ -163,7 +170,6 @@ namespace TrRouting
                                                      capnpT.getOriginNodesDistances()[j]));
             }
 
-            const unsigned int destinationNodesCount {capnpT.getDestinationNodesUuids().size()};
             std::vector<NodeTimeDistance> destinationNodes;
             for (unsigned int j = 0; j < destinationNodesCount; j++)
             {
-- 
2.43.0


From 11a0cc8ddb5315a22dcc04579a7e420375278634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:53 +0000
Subject: [PATCH 22/27] fix: answer a read error instead of naming data that
 was not read as missing

---
 include/transit_data.hpp |  7 +++++
 src/transit_data.cpp     | 55 +++++++++++++++++++++++++++-------------
 2 files changed, 44 insertions(+), 18 deletions(-)

diff --git a/include/transit_data.hpp b/include/transit_data.hpp
index 0e6e988..8377f61 100644
--- a/include/transit_data.hpp
+++ b/include/transit_data.hpp
@@ -2,6 +2,7 @@
 #define TR_TRANSIT_DATA
 
 #include <map>
+#include <set>
 #include <string>
 #include <vector>
 #include <memory>
@@ -101,6 +102,10 @@ namespace TrRouting {
   protected:
     DataStatus loadAllData();
     int generateForwardAndReverseConnections();
+    // Status of an empty collection: not being able to read it is not the same as having no data
+    DataStatus getEmptyStatus(const std::string &cacheName, DataStatus emptyStatus) const;
+    // Keep track of the collections that were read without error, returns the status received
+    int setReadStatus(const std::string &cacheName, int ret);
 
     DataFetcher &dataFetcher;
 
@@ -116,6 +121,8 @@ namespace TrRouting {
     std::map<boost::uuids::uuid, Scenario>   scenarios;
     std::map<boost::uuids::uuid, Trip>       trips;
 
+    std::set<std::string> readCaches; // names of the collections that were read without error, or for which there is no file
+
     std::vector<Connection> connections;
     std::vector<std::reference_wrapper<const Connection>> forwardConnections; // Forward connections, sorted by departure time ascending
     std::vector<std::reference_wrapper<const Connection>> reverseConnections; // Reverse connections, sorted by arrival time descending
diff --git a/src/transit_data.cpp b/src/transit_data.cpp
index e5961b4..8b84b50 100644
--- a/src/transit_data.cpp
+++ b/src/transit_data.cpp
@@ -46,45 +46,64 @@ namespace TrRouting {
   DataStatus TransitData::getDataStatus() const {
     if (agencies.size() == 0)
     {
-      return DataStatus::NO_AGENCIES;
+      return getEmptyStatus("agencies", DataStatus::NO_AGENCIES);
     }
     else if (services.size() == 0)
     {
-      return DataStatus::NO_SERVICES;
+      return getEmptyStatus("services", DataStatus::NO_SERVICES);
     }
     else if (nodes.size() == 0)
     {
-      return DataStatus::NO_NODES;
+      return getEmptyStatus("nodes", DataStatus::NO_NODES);
     }
     else if (lines.size() == 0)
     {
-      return DataStatus::NO_LINES;
+      return getEmptyStatus("lines", DataStatus::NO_LINES);
     }
     else if (paths.size() == 0)
     {
-      return DataStatus::NO_PATHS;
+      return getEmptyStatus("paths", DataStatus::NO_PATHS);
     }
     else if (scenarios.size() == 0)
     {
-      return DataStatus::NO_SCENARIOS;
+      return getEmptyStatus("scenarios", DataStatus::NO_SCENARIOS);
     }
     //TODO Add connection
     else if (/*calculator->countConnections() == 0  ||*/ trips.size() == 0)
     {
-      return DataStatus::NO_SCHEDULES;
+      return getEmptyStatus("schedules", DataStatus::NO_SCHEDULES);
     }
     return DataStatus::READY;
   }
 
+  DataStatus TransitData::getEmptyStatus(const std::string &cacheName, DataStatus emptyStatus) const
+  {
+    return readCaches.count(cacheName) > 0 ? emptyStatus : DataStatus::DATA_READ_ERROR;
+  }
+
+  int TransitData::setReadStatus(const std::string &cacheName, int ret)
+  {
+    // A missing file is not an error, the collection is just empty
+    if (ret < 0 && ret != -ENOENT)
+    {
+      readCaches.erase(cacheName);
+    }
+    else
+    {
+      readCaches.insert(cacheName);
+    }
+    return ret;
+  }
+
   int TransitData::updateNodes(std::string customPath)
   {
     scenarioConnectionCache->clear();
-    return dataFetcher.getNodes(nodes, customPath);
+    return setReadStatus("nodes", dataFetcher.getNodes(nodes, customPath));
   }
 
   int TransitData::updateDataSources(std::string customPath)
   {
-    return dataFetcher.getDataSources(dataSources, customPath);
+    return setReadStatus("data_sources", dataFetcher.getDataSources(dataSources, customPath));
   }
   /* TODO #167
   int TransitData::updateHouseholds(std::string customPath)
@@ -94,12 +113,12 @@ namespace TrRouting {
   */
   int TransitData::updatePersons(std::string customPath)
   {
-    return dataFetcher.getPersons(persons, getDataSources(), customPath);
+    return setReadStatus("persons", dataFetcher.getPersons(persons, getDataSources(), customPath));
   }
   
   int TransitData::updateOdTrips(std::string customPath)
   {
-    return dataFetcher.getOdTrips(odTrips, dataSources, getPersons(), getNodes(), customPath);
+    return setReadStatus("od_trips", dataFetcher.getOdTrips(odTrips, dataSources, getPersons(), getNodes(), customPath));
   }
   /* TODO #167
   int TransitData::updatePlaces(std::string customPath)
@@ -110,31 +129,31 @@ namespace TrRouting {
   int TransitData::updateAgencies(std::string customPath)
   {
     scenarioConnectionCache->clear();
-    return dataFetcher.getAgencies(agencies, customPath);
+    return setReadStatus("agencies", dataFetcher.getAgencies(agencies, customPath));
   }
 
   int TransitData::updateServices(std::string customPath)
   {
     scenarioConnectionCache->clear();
-    return dataFetcher.getServices(services, customPath);
+    return setReadStatus("services", dataFetcher.getServices(services, customPath));
   }
 
   int TransitData::updateLines(std::string customPath)
   {
     scenarioConnectionCache->clear();
-    return dataFetcher.getLines(lines, getAgencies(), getModes(), customPath);
+    return setReadStatus("lines", dataFetcher.getLines(lines, getAgencies(), getModes(), customPath));
   }
 
   int TransitData::updatePaths(std::string customPath)
   {
     scenarioConnectionCache->clear();
-    return dataFetcher.getPaths(paths, getLines(), getNodes(), customPath);
+    return setReadStatus("paths", dataFetcher.getPaths(paths, getLines(), getNodes(), customPath));
   }
 
   int TransitData::updateScenarios(std::string customPath)
   {
     scenarioConnectionCache->clear();
-    return dataFetcher.getScenarios(scenarios, getServices(), getLines(), getAgencies(), getNodes(), getModes(), customPath);
+    return setReadStatus("scenarios", dataFetcher.getScenarios(scenarios, getServices(), getLines(), getAgencies(), getNodes(), getModes(), customPath));
   }
 
   int TransitData::updateSchedules(std::string customPath)
@@ -151,9 +170,9 @@ namespace TrRouting {
     );
     if (ret < 0)
     {
-      return ret;
+      return setReadStatus("schedules", ret);
     }
-    return generateForwardAndReverseConnections();
+    return setReadStatus("schedules", generateForwardAndReverseConnections());
   }
 
   const int CONNECTION_ITERATOR_CACHE_BEGIN_HOUR = 0;
-- 
2.43.0


From b59d0d6a14ea9db65da25aad2999ef395b58c37b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:57 +0000
Subject: [PATCH 23/27] fix: ignore the entries of the walking router that were
 not requested or are not times and distances

---
 src/osrmgeofilter.cpp | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/osrmgeofilter.cpp b/src/osrmgeofilter.cpp
index 6b95f1c..a4d843c 100644
--- a/src/osrmgeofilter.cpp
+++ b/src/osrmgeofilter.cpp
@@ -2,6 +2,7 @@
 #include <nlohmann/json.hpp>
 #include "point.hpp"
 #include "node.hpp"
+#include "toolbox.hpp" //MAX_INT
 #include "client_http.hpp"
 #include "spdlog/spdlog.h"
 
@@ -95,12 +96,25 @@ namespace TrRouting {
       {
         int travelTimeSeconds;
         int distanceMeters;
-        for (int i = 1; i < numberOfDurations; i++) // ignore first (duration with itself)
+        // ignore first (duration with itself), there cannot be more entries than the nodes requested
+        for (int i = 1; i < numberOfDurations && i < numberOfDistances && i <= (int)birdDistanceAccessibleNodeIndexes.size(); i++)
         {
-          travelTimeSeconds = (int)ceil((float)responseJson["durations"][0][i]);
+          float duration = (float)responseJson["durations"][0][i];
+          if (!(duration >= 0 && duration < (float)MAX_INT))
+          {
+            spdlog::error("Invalid duration received from OSRM");
+            continue;
+          }
+          travelTimeSeconds = (int)ceil(duration);
           if (travelTimeSeconds <= maxWalkingTravelTime)
           {
-            distanceMeters = (int)ceil((float)responseJson["distances"][0][i]);
+            float distance = (float)responseJson["distances"][0][i];
+            if (!(distance >= 0 && distance < (float)MAX_INT))
+            {
+              spdlog::error("Invalid distance received from OSRM");
+              continue;
+            }
+            distanceMeters = (int)ceil(distance);
             accessibleNodesFootpaths.push_back(NodeTimeDistance(birdDistanceAccessibleNodeIndexes[i - 1],
                                                                 travelTimeSeconds,
                                                                 distanceMeters));
-- 
2.43.0


From 22f5a3466569f928e82b3d3ac34de1a7aa0993bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:15 +0000
Subject: [PATCH 24/27] fix: number the requests of concurrent threads without
 data race

---
 .../src/transit_routing_http_server.cpp                    | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/connection_scan_algorithm/src/transit_routing_http_server.cpp b/connection_scan_algorithm/src/transit_routing_http_server.cpp
index 85eaeed..a23b31f 100644
--- a/connection_scan_algorithm/src/transit_routing_http_server.cpp
+++ b/connection_scan_algorithm/src/transit_routing_http_server.cpp
@@ -4,6 +4,7 @@
 //Added for the json-example
 #define BOOST_SPIRIT_THREADSAFE
 
+#include <atomic>
 #include <vector>
 #include <set>
 #include <algorithm>
@@ -289,7 +290,7 @@ int main(int argc, char** argv) {
   // TODO Copy-pasted and adapted from /route/v1/transit. There's still a lot of common code. Application code should be extracted to common functions outside the web server
   server.resource["^/v2/route[/]?$"]["GET"]=[&server, &transitData, &geoFilter](std::shared_ptr<HttpServer::Response> serverResponse, std::shared_ptr<HttpServer::Request> request) {
     // Have a global id to match the requests in the logs
-    static int routeRequestId = 0;
+    static std::atomic<int> routeRequestId {0};
     std::string response = getFastErrorResponse(transitData.getDataStatus());
 
     if (!response.empty()) {
@@ -359,7 +360,7 @@ int main(int argc, char** argv) {
   // TODO Copy pasted from v2/route. There's a lot in common, it should be extracted to common class, just the response parser is different
   server.resource["^/v2/summary[/]?$"]["GET"]=[&server, &transitData, &geoFilter](std::shared_ptr<HttpServer::Response> serverResponse, std::shared_ptr<HttpServer::Request> request) {
     // Have a global id to match the requests in the logs
-    static int summaryRequestId = 0;
+    static std::atomic<int> summaryRequestId {0};
 
     std::string response = getFastErrorResponse(transitData.getDataStatus());
 
@@ -430,7 +431,7 @@ int main(int argc, char** argv) {
   // TODO Copy-pasted and adapted from /route/v1/transit. There's still a lot of common code. Application code should be extracted to common functions outside the web server
   server.resource["^/v2/accessibility[/]?$"]["GET"]=[&server, &transitData, &geoFilter](std::shared_ptr<HttpServer::Response> serverResponse, std::shared_ptr<HttpServer::Request> request) {
     // Have a global id to match the requests in the logs
-    static int accessibilityRequestId = 0;
+    static std::atomic<int> accessibilityRequestId {0};
 
     std::string response = getFastErrorResponse(transitData.getDataStatus());
 
-- 
2.43.0


From 17c6079d3af65e1f554a980961fade50a30188d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:53 +0000
Subject: [PATCH 25/27] fix: do not overflow when times or the minimum waiting
 time are near the integer maximum

---
 .../src/parameters/common_parameters.cpp                     | 5 +++++
 connection_scan_algorithm/src/resets.cpp                     | 4 +++-
 connection_scan_algorithm/src/reverse_journey.cpp            | 2 +-
 3 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/connection_scan_algorithm/src/parameters/common_parameters.cpp b/connection_scan_algorithm/src/parameters/common_parameters.cpp
index 997c99b..750f100 100644
--- a/connection_scan_algorithm/src/parameters/common_parameters.cpp
+++ b/connection_scan_algorithm/src/parameters/common_parameters.cpp
@@ -165,6 +165,11 @@ namespace TrRouting
         {
           minWaitingTimeSeconds = 0;
         }
+        else if (minWaitingTimeSeconds > MAX_INT / 2)
+        {
+          // Limit the value so that adding it to times does not overflow
+          minWaitingTimeSeconds = MAX_INT / 2;
+        }
         continue;
       }
       else if (parameterWithValue.first == "max_travel_time")
diff --git a/connection_scan_algorithm/src/resets.cpp b/connection_scan_algorithm/src/resets.cpp
index 7976806..64bb916 100644
--- a/connection_scan_algorithm/src/resets.cpp
+++ b/connection_scan_algorithm/src/resets.cpp
@@ -1,3 +1,4 @@
+#include <algorithm>
 #include "spdlog/spdlog.h"
 #include "calculator.hpp"
 #include "parameters.hpp"
@@ -47,7 +48,8 @@ namespace TrRouting
     }
     else if (parameters.isForwardCalculation())
     {
-      departureTimeSeconds = parameters.getTimeOfTrip();
+      // Nothing departs that late, limit the value so that adding durations does not overflow
+      departureTimeSeconds = std::min(parameters.getTimeOfTrip(), MAX_INT / 2);
     }
     if (!parameters.isForwardCalculation())
     {
diff --git a/connection_scan_algorithm/src/reverse_journey.cpp b/connection_scan_algorithm/src/reverse_journey.cpp
index a70285c..4c9f984 100644
--- a/connection_scan_algorithm/src/reverse_journey.cpp
+++ b/connection_scan_algorithm/src/reverse_journey.cpp
@@ -325,7 +325,7 @@ namespace TrRouting
       if (reverseAccessJourneysSteps.at(resultingNode.uid).getFinalEnterConnection().has_value()) {
         //TODO Could move this operation into a function of class Connection
         int departureTimeD = reverseAccessJourneysSteps.at(resultingNode.uid).getFinalEnterConnection().value().get().getDepartureTime() - reverseAccessJourneysSteps.at(resultingNode.uid).getFinalEnterConnection().value().get().getMinWaitingTimeOrDefault(parameters.getMinWaitingTimeSeconds());
-        if (arrivalTimeSeconds - departureTimeD <=  parameters.getMaxTotalTravelTimeSeconds()) {
+        if ((long long)arrivalTimeSeconds - departureTimeD <= parameters.getMaxTotalTravelTimeSeconds()) {
           reachableNodesCount++;
 
           AccessibleNodes node = AccessibleNodes(
-- 
2.43.0


From cc696c2ec70a19f6f4791c77a2199e7d67ef03e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:46 +0000
Subject: [PATCH 26/27] fix: report a malformed Content-Length of the walking
 router as a protocol error

---
 include/client_http.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/client_http.hpp b/include/client_http.hpp
index 666b5f0..58761aa 100644
--- a/include/client_http.hpp
+++ b/include/client_http.hpp
@@ -574,7 +574,14 @@ namespace SimpleWeb {
 
           auto header_it = session->response->header.find("Content-Length");
           if(header_it != session->response->header.end()) {
-            auto content_length = std::stoull(header_it->second);
+            unsigned long long content_length = 0;
+            try {
+              content_length = std::stoull(header_it->second);
+            }
+            catch(...) {
+              session->callback(make_error_code::make_error_code(errc::protocol_error));
+              return;
+            }
             if(content_length > num_additional_bytes)
               this->read_content(session, content_length - num_additional_bytes);
             else
-- 
2.43.0


From 061476240ad593bd7986535d39d28c7fae5e019a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:02 +0000
Subject: [PATCH 27/27] fix: take the minimum waiting time into account when
 stopping the reverse calculation early

---
 connection_scan_algorithm/src/reverse_calculation.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/connection_scan_algorithm/src/reverse_calculation.cpp b/connection_scan_algorithm/src/reverse_calculation.cpp
index 7c493b2..72d1254 100644
--- a/connection_scan_algorithm/src/reverse_calculation.cpp
+++ b/connection_scan_algorithm/src/reverse_calculation.cpp
@@ -117,7 +117,8 @@ namespace TrRouting
               if (!reachedAtLeastOneAccessNode &&  nodeDepartureInNodesAccessIte != nodesAccess.end() &&  nodeDepartureInNodesAccessIte->second.time != -1) // check if the departure node is accessable
               {
                 reachedAtLeastOneAccessNode      = true;
-                tentativeAccessNodeDepartureTime = connectionDepartureTime;
+                // subtract the waiting time, since earlier connections may require a shorter one
+                tentativeAccessNodeDepartureTime = connectionDepartureTime - connectionMinWaitingTimeSeconds;
 
               }
               footpathIndex = 0;
-- 
2.43.0

