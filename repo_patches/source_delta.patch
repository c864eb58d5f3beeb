From 8ddfbd899cb67bbb93451bd81412e729e9462fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:29 +0000
Subject: [PATCH 01/55] fix: report the cost and demand of both routes modified
 by 2-opt*

---
 verypy/local_search/inter_route_operators.py | 26 +++++++++++---------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/verypy/local_search/inter_route_operators.py b/verypy/local_search/inter_route_operators.py
index 7410fe1..510786c 100644
--- a/verypy/local_search/inter_route_operators.py
+++ b/verypy/local_search/inter_route_operators.py
@@ -129,11 +129,13 @@ def do_2optstar_move(route1_data, route2_data, D, d=None,
                     constraint_violated = True
                 
                 if not constraint_violated:
-                    # store segments, deltas, and demands
+                    # store segments, route costs, and demands
+                    r1_new_cost = route1_data.fwd_l[i]+D[a,c]+route2_data.fwd_l[j]
+                    r2_new_cost = route1_data.rwd_l[i+1]+D[b,d]+route2_data.rwd_l[j+1]
                     best_move = (((None,i+1,1), (j,None,-1),
-                                  D[a,c]-D[a,b], r1_new_demand),
+                                  r1_new_cost, r1_new_demand),
                                  ((None,i,-1), (j+1,None,1),
-                                  D[b,d]-D[c,d], r2_new_demand))
+                                  r2_new_cost, r2_new_demand))
                     best_delta = delta
                     
                     if strategy==LSOPT.FIRST_ACCEPT:
@@ -164,11 +166,13 @@ def do_2optstar_move(route1_data, route2_data, D, d=None,
                     constraint_violated = True
                     
                 if not constraint_violated:
-                    # store segments, deltas, and demands
+                    # store segments, route costs, and demands
+                    r1_new_cost = route1_data.fwd_l[i]+D[a,d]+route2_data.rwd_l[j+1]
+                    r2_new_cost = route1_data.rwd_l[i+1]+D[b,c]+route2_data.fwd_l[j]
                     best_move = (((None,i+1,1), (j+1,None,1),
-                                  D[a,d]-D[a,b], r1_new_demand),
+                                  r1_new_cost, r1_new_demand),
                                  ((None,i,-1), (j,None,-1),
-                                  D[b,c]-D[c,d], r2_new_demand))
+                                  r2_new_cost, r2_new_demand))
                     best_delta = delta
                     
                     if strategy==LSOPT.FIRST_ACCEPT:
@@ -180,22 +184,22 @@ def do_2optstar_move(route1_data, route2_data, D, d=None,
                 
     if best_move:
         # unpack the move
-        ((r1_sgm1, r2_sgm1, r1_delta, r1_new_demand),
-         (r1_sgm2, r2_sgm2, r2_delta, r2_new_demand)) = best_move
+        ((r1_sgm1, r2_sgm1, r1_new_cost, r1_new_demand),
+         (r1_sgm2, r2_sgm2, r2_new_cost, r2_new_demand)) = best_move
          
         return (
             # route 1
             RouteData(
                 route1_data.route[r1_sgm1[0]:r1_sgm1[1]:r1_sgm1[2]]+\
                 route2_data.route[r2_sgm1[0]:r2_sgm1[1]:r2_sgm1[2]],
-                route1_data.cost+r1_delta,
+                r1_new_cost,
                 r1_new_demand),
             # route 2
             RouteData(
                 route1_data.route[r1_sgm2[0]:r1_sgm2[1]:r1_sgm2[2]]+\
                 route2_data.route[r2_sgm2[0]:r2_sgm2[1]:r2_sgm2[2]],
-                route1_data.cost+r1_delta,
-                r1_new_demand),
+                r2_new_cost,
+                r2_new_demand),
             # delta
             best_delta)
  
-- 
2.43.0


From be440fe585f3480a1ea0108b97aa2f1122f62b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:29 +0000
Subject: [PATCH 02/55] fix: check the route cost constraint of the donor route
 in one point and chain moves

---
 verypy/local_search/inter_route_operators.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/verypy/local_search/inter_route_operators.py b/verypy/local_search/inter_route_operators.py
index 510786c..2043507 100644
--- a/verypy/local_search/inter_route_operators.py
+++ b/verypy/local_search/inter_route_operators.py
@@ -254,6 +254,11 @@ def do_1point_move(route1_data, route2_data, D, d=None,
                       -D[remove_after,to_move]\
                       -D[to_move,remove_before]
         
+        # if the triangle inequality does not hold, a removal can make the 
+        #  donor route longer -> route cost constraint feasibility check
+        if L and r1_l+remove_delta-S_EPS>L:
+            continue
+        
         # capacity constraint feasibility check 
         if C and r2_d+d[to_move]-C_EPS>C:
             continue
@@ -623,6 +628,11 @@ def do_chain_move(route1_data, route2_data, route3_data, D, d=None,
         remove_delta =  +D[remove_after,remove_before]\
                         -D[remove_after,to_move]\
                         -D[to_move,remove_before]
+                        
+        # if the triangle inequality does not hold, a removal can make the 
+        #  donor route longer -> route cost constraint feasibility check
+        if L and r1_l+remove_delta-S_EPS>L:
+            continue
         
         for j in range(1,len(route2)-1):
             
-- 
2.43.0


From 206ec764d22a8cedd83b74536cd51f4bab55534a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:26 +0000
Subject: [PATCH 03/55] fix: do not insert a redistributed customer to several
 routes

---
 verypy/local_search/inter_route_operators.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/verypy/local_search/inter_route_operators.py b/verypy/local_search/inter_route_operators.py
index 2043507..85f4859 100644
--- a/verypy/local_search/inter_route_operators.py
+++ b/verypy/local_search/inter_route_operators.py
@@ -572,9 +572,10 @@ def do_redistribute_move(redisributed_route_data,
                 total_delta+=delta
                 if total_delta+S_EPS<best_delta:
                     node_succesfully_inserted = True
-                    break
-                else:
-                    continue
+                # the node is already on the ansatz route. If the delta was not
+                #  good enough, the ansatz cannot be accepted, and the node
+                #  must not be inserted again (to another route).
+                break
                 
             if not node_succesfully_inserted:
                 all_succesfully_inserted = False
-- 
2.43.0


From 512435f7604e58eadc38a61462388e5e37adaa8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:26 +0000
Subject: [PATCH 04/55] fix: respect the improvement level of zero when
 redistributing a route

---
 verypy/local_search/inter_route_operators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verypy/local_search/inter_route_operators.py b/verypy/local_search/inter_route_operators.py
index 85f4859..1774b99 100644
--- a/verypy/local_search/inter_route_operators.py
+++ b/verypy/local_search/inter_route_operators.py
@@ -530,7 +530,7 @@ def do_redistribute_move(redisributed_route_data,
         if redisributed_route_data.demand-C_EPS > total_d_slack:
             return [None]*(len(receiving_route_or_routes_data)+2)
         
-    if not best_delta:
+    if best_delta is None:
         # allows move that makes the overall solution cost worse
         best_delta = float("inf")
     redistribution_succesfull = False    
-- 
2.43.0


From 0cc25036a9dcc540241b49712a9a5ae1d25b6f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:44 +0000
Subject: [PATCH 05/55] fix: suppression savings returns a solution for a
 single customer problem

---
 verypy/classic_heuristics/suppression_savings.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/verypy/classic_heuristics/suppression_savings.py b/verypy/classic_heuristics/suppression_savings.py
index f69ff7a..dc2ccdf 100644
--- a/verypy/classic_heuristics/suppression_savings.py
+++ b/verypy/classic_heuristics/suppression_savings.py
@@ -46,6 +46,9 @@ def supression_savings_function(D, suppressed, savings_cache=None):
     
     N = len(D);
     n = N-1
+    if n<2:
+        # with one customer there is nothing to merge (or to suppress)
+        return []
     if not savings_cache:
         if type(savings_cache) is list:
             savings_cache[:] = [None]*int((n*n-n)/2)
@@ -112,7 +115,8 @@ def suppression_savings_init(D,d,C,L, minimize_K=False, Lprime="auto"):
         # according to the (limited) experimental data of the Holmes & Parker
         #  (1976), for best results this can grow linearly.
         Lprime = int(N/7)+5
-    Lprime = min(Lprime, int((N**2-N)/2))
+    # build at least one solution, even if there are no merges to suppress
+    Lprime = max(1, min(Lprime, int((N**2-N)/2)))
     
     best_sol = None
     best_f = None
-- 
2.43.0


From d71442111f450428d8a06296380f12eac2d6a795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:35 +0000
Subject: [PATCH 06/55] fix: nearest neighbor heuristic does not lose customers
 that share a location

---
 verypy/classic_heuristics/nearest_neighbor.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/verypy/classic_heuristics/nearest_neighbor.py b/verypy/classic_heuristics/nearest_neighbor.py
index 5392fbf..91d79b6 100644
--- a/verypy/classic_heuristics/nearest_neighbor.py
+++ b/verypy/classic_heuristics/nearest_neighbor.py
@@ -18,7 +18,6 @@ from __future__ import print_function
 from __future__ import division
 
 from logging import log, DEBUG
-from operator import itemgetter
 from collections import deque
 from verypy.util import objf, without_empty_routes, is_better_sol, routes2sol
 
@@ -165,7 +164,9 @@ def nearest_neighbor_init(D, d, C, L=None,
     node_nearest_neighbors = [None]*N
     for i in range(N):
         node_nearest_neighbors[i] = _PeekQueue( sorted(enumerate(D[i][:]),
-                                                        key=itemgetter(1)) )
+                            # there can be other nodes at zero distance, but
+                            #  make sure the reference to self is the first
+                            key=lambda nd: (nd[0]!=i, nd[1])) )
         node_nearest_neighbors[i].popleft() # pop reference to self
         
     # bookkeeping on the nodes that we have already served
-- 
2.43.0


From c9fca6777760a78aa7e594ca15262f6710033674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:35 +0000
Subject: [PATCH 07/55] fix: Tyagi nearest neighbor heuristic solves a single
 customer problem

---
 verypy/classic_heuristics/tyagi_nearest_neighbor.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/verypy/classic_heuristics/tyagi_nearest_neighbor.py b/verypy/classic_heuristics/tyagi_nearest_neighbor.py
index 496d119..3ad2848 100644
--- a/verypy/classic_heuristics/tyagi_nearest_neighbor.py
+++ b/verypy/classic_heuristics/tyagi_nearest_neighbor.py
@@ -307,6 +307,10 @@ def tyagi_init(D, d, C, L=None,
                                forbidden_nodes=[single_route_candidate],
                                route_improvement_callback=interchange_variant)
                                
+                if cndt_sol is None:
+                    # the candidate is the only customer, nothing to group
+                    continue
+                               
                 cndt_K = cndt_sol.count(0)-1+1 #the single_route_candidate_node
                 if cndt_K>best_K:
                     if __debug__:
-- 
2.43.0


From 5796e1e027f5cb28fc496c1babbe9a0de34acb7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:36 +0000
Subject: [PATCH 08/55] fix: parallel nearest neighbor heuristic with nearest
 pair seeds terminates

---
 verypy/classic_heuristics/nearest_neighbor.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/verypy/classic_heuristics/nearest_neighbor.py b/verypy/classic_heuristics/nearest_neighbor.py
index 91d79b6..53de929 100644
--- a/verypy/classic_heuristics/nearest_neighbor.py
+++ b/verypy/classic_heuristics/nearest_neighbor.py
@@ -107,6 +107,8 @@ def get_seed_node(seed_mode, D, node_nearest_neighbors, served):
                 if D[i,nearest] < nearest_distance:
                     seed_node  = i
                     nearest_distance = D[i,nearest]
+            if seed_node is None:
+                raise IndexError("All nodes are already served")
         else:
             raise ValueError("Only 'farthest', 'closest', and "+
                              "'nearest' route initialization "+
-- 
2.43.0


From f696ce6df0a347a6f3c103fdeb6ae53a23487f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:58 +0000
Subject: [PATCH 09/55] fix: Wren & Holliday heuristic does not cycle between
 solutions forever

---
 verypy/classic_heuristics/wren_holliday_sweep.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/verypy/classic_heuristics/wren_holliday_sweep.py b/verypy/classic_heuristics/wren_holliday_sweep.py
index 90134a7..0edff81 100644
--- a/verypy/classic_heuristics/wren_holliday_sweep.py
+++ b/verypy/classic_heuristics/wren_holliday_sweep.py
@@ -619,6 +619,7 @@ def wren_holliday_init(points, D, d, C, L=None, minimize_K=False,
         omitted_nodes = set()
         prev_Q_point_sol_f = None    
         prev_iteration_sol_f = None
+        visited_states = set()
         changed = False
         
         try:
@@ -716,11 +717,19 @@ def wren_holliday_init(points, D, d, C, L=None, minimize_K=False,
                      
                 ## "Has situation changed in interation?" ##
                 solution_changed_between_iterations = True
-                if prev_iteration_sol_f:
+                if prev_iteration_sol_f is not None:
                     if prev_iteration_sol_f == sol_f:
                         solution_changed_between_iterations = False
                 prev_iteration_sol_f = sol_f
                 
+                # "DELETE" may worsen the solution, so the search can return
+                #  to a state it has already been in. Do not cycle forever.
+                state = (deleted, frozenset(omitted_nodes),
+                         tuple(tuple(rd.route) for rd in routes))
+                if state in visited_states:
+                    solution_changed_between_iterations = False
+                visited_states.add(state)
+                
                 if converging and (
                   (full_convergence and not changed) or
                   (not full_convergence and not deleted) or 
-- 
2.43.0


From a23d3ff9d73f88c44707298b3c28c0d9e1f65d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:12 +0000
Subject: [PATCH 10/55] fix: route-first-cluster-second considers serving all
 customers with one route

---
 verypy/classic_heuristics/rfcs.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/verypy/classic_heuristics/rfcs.py b/verypy/classic_heuristics/rfcs.py
index 429679b..d9b5cff 100644
--- a/verypy/classic_heuristics/rfcs.py
+++ b/verypy/classic_heuristics/rfcs.py
@@ -98,12 +98,14 @@ def _partition_to_routes_with_cost_matrix(D, d, C, L, giant_tour,
                 sequence_D[u_idx,v_idx] = route_cost+route_cost_constant
                 next_split[u_idx,v_idx] = v_idx
                 
+                # full circle, all nodes of the giant tour are on the route
+                if v_idx==u_idx:
+                    break
+                
                 # leave out the last node of the giant tour (same as the first)
                 v_idx+=1
                 if v_idx==gtl:
                     v_idx = 0
-                if v_idx==u_idx:
-                    break
             
             # leave out the last node of the giant tour (same as the first)
             u_idx+=1
-- 
2.43.0


From aa72163fea63866baf4ffb4deb80ab2defaeb17b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:22 +0000
Subject: [PATCH 11/55] fix: normalize a list of routes that has empty routes

---
 verypy/cvrp_ops.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/verypy/cvrp_ops.py b/verypy/cvrp_ops.py
index 916b462..95727fc 100644
--- a/verypy/cvrp_ops.py
+++ b/verypy/cvrp_ops.py
@@ -53,6 +53,7 @@ def normalize_solution(sol):
     # Already in parts
     if hasattr(sol[0], '__len__'):
         routes = [_list_trim(route, 0) for route in sol]
+        routes = [route for route in routes if route] # no empty routes
     else:
         #print(sol
         routes = _list_split(sol, 0)
-- 
2.43.0


From 0f7465b2e7b173d7537f6537987c9b1264cc7b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:22 +0000
Subject: [PATCH 12/55] fix: do not lose the fractional half of the service
 time

---
 verypy/cvrp_ops.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/verypy/cvrp_ops.py b/verypy/cvrp_ops.py
index 95727fc..1d1f1b1 100644
--- a/verypy/cvrp_ops.py
+++ b/verypy/cvrp_ops.py
@@ -238,12 +238,14 @@ def D2D_c(D, st):
         raise ValueError("Service time not set")
     
     tst = D.dtype.type(st)
-    if float(tst)!=float(st) or float(tst/2)!=float(st/2.0):
+    halftst = D.dtype.type(st/2.0)
+    if float(tst)!=float(st) or float(halftst)!=float(st/2.0):
+        # service time (or a half of it) cannot be stored to D, use floats
         D_c = D.astype('d')
-        halftst = tst/2.0
+        tst = float(st)
+        halftst = st/2.0
     else:
-        D_c = np.copy(D)    
-        halftst = int(tst/2)
+        D_c = np.copy(D)
     
     D_c[1:,1:]+=tst
     D_c[0,:]+=halftst
-- 
2.43.0


From 4d26ec3d960b0dc0b97a3f906010490a71460c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:22 +0000
Subject: [PATCH 13/55] fix: keep the index of the ordered set in sync when
 adding elements

---
 verypy/util.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/verypy/util.py b/verypy/util.py
index b9a8fc9..4ed938e 100644
--- a/verypy/util.py
+++ b/verypy/util.py
@@ -166,9 +166,10 @@ class OrderedDictSet:
         del self.ods[element]
         self.keylist = None # needs update
     def add(self, element):
-        self.ods[element] = None
-        if self.keylist:
-            self.keylist.append(element) # avoid full update
+        if element not in self.ods:
+            self.ods[element] = None
+            if self.keylist is not None:
+                self.keylist.append(element) # avoid full update
     def difference_update(self, collection):
         for element in collection:
             self.ods.pop(element, None)
-- 
2.43.0


From 00d0b23fee7daea26e354a28657749ee8e2a96c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:22 +0000
Subject: [PATCH 14/55] fix: undirected edges of a symmetric problem are not
 duplicated

---
 verypy/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verypy/util.py b/verypy/util.py
index 4ed938e..302dc77 100644
--- a/verypy/util.py
+++ b/verypy/util.py
@@ -97,7 +97,7 @@ def sol2edgeset(sol, symmetric=True):
     edges = set()
     for i in range(0,len(sol)-1):
         j = i+1
-        if symmetric or sol[i]<sol[j]:
+        if (not symmetric) or sol[i]<sol[j]:
             edges.add( (sol[i], sol[j]) )
         else:
             edges.add( (sol[j], sol[i]) )
-- 
2.43.0


From 40525ad1d8f79ea0c8a6e7621bd85c58e3e6b035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:01 +0000
Subject: [PATCH 15/55] fix: reorder the whole distance matrix when the depot
 is not the first node

---
 verypy/cvrp_io.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/verypy/cvrp_io.py b/verypy/cvrp_io.py
index 115ba5e..a13e911 100644
--- a/verypy/cvrp_io.py
+++ b/verypy/cvrp_io.py
@@ -385,10 +385,7 @@ def read_TSPLIB_CVRP(file_name):
         # make sure depot is the 0
         idx_0 = depot_ids[0]-1
         row_col_permutation = [idx_0]+list(range(0,idx_0))+list(range(idx_0+1,len(D)))
-        for i in range(N):
-            D[:,i] = D[row_col_permutation,i]
-        for i in range(N):
-            D[i,:] = D[i,row_col_permutation]
+        D = D[row_col_permutation,:][:,row_col_permutation]
         if demands is not None and len(demands)>0:
             demands = [demands[idx_0]]+demands[:idx_0]+demands[idx_0+1:]
         if points is not None and len(points)>0:
-- 
2.43.0


From baa1097e5b576be560010f3c08338d5dc531cc96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:01 +0000
Subject: [PATCH 16/55] fix: read the customer service times section of a
 problem file

---
 verypy/cvrp_io.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/verypy/cvrp_io.py b/verypy/cvrp_io.py
index a13e911..013e67c 100644
--- a/verypy/cvrp_io.py
+++ b/verypy/cvrp_io.py
@@ -416,14 +416,19 @@ def read_TSBLIB_additional_constraints(custom_tsplib_file):
     with open(custom_tsplib_file) as fh:
         for l in fh.readlines():
             if reading_service_time_section:
-                nid, nst = l.split()
-                if "." in nst:
-                    nst = float(nst)
-                else:
-                    nst = int(nst)
-                if ST is not None and nst!=ST:
-                    raise IOError("Only single (same) service time for all customers is supported")
-                elif nid!=1:
+                fields = l.split()
+                # the section ends to the next keyword
+                reading_service_time_section = (len(fields)==2 and
+                                                fields[0].isdigit())
+                # the service time of the depot (node 1) is ignored
+                if reading_service_time_section and int(fields[0])!=1:
+                    nst = fields[1]
+                    if "." in nst:
+                        nst = float(nst)
+                    else:
+                        nst = int(nst)
+                    if ST is not None and nst!=ST:
+                        raise IOError("Only single (same) service time for all customers is supported")
                     ST = nst
             if "DISTANCE" in l:
                 if "." in l:
-- 
2.43.0


From ba3b4104ba470bde8b4a09079d7fc0e2ad8b29ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:01 +0000
Subject: [PATCH 17/55] fix: write only the demands of the selected nodes to a
 problem file

---
 verypy/cvrp_io.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/verypy/cvrp_io.py b/verypy/cvrp_io.py
index 013e67c..8e298a0 100644
--- a/verypy/cvrp_io.py
+++ b/verypy/cvrp_io.py
@@ -551,11 +551,11 @@ def write_TSPLIB_file(tsplib_file_path, D,
         if write_cvrp:
             problem_file.write("DEMAND_SECTION\n1 0\n")
             if d:
-                for i in range(2,len(d)+1):
-                    problem_file.write("%d %d\n"%(i, int(d[i-1])))
+                for ii, i in enumerate(selected_idxs[1:]):
+                    problem_file.write("%d %d\n"%(ii+2, int(d[i])))
             else:
-                for i in range(2,len(D)+1):
-                    problem_file.write("%d 1\n"%i)
+                for ii in range(1,len(selected_idxs)):
+                    problem_file.write("%d 1\n"%(ii+1))
             problem_file.write("DEPOT_SECTION\n")
             problem_file.write("1\n")
             problem_file.write("-1\n")
-- 
2.43.0


From ac3f7e4b9d14fc75c66290b949d7385c9975c38c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:01 +0000
Subject: [PATCH 18/55] fix: read the cost from the solution files VeRyPy
 writes

---
 verypy/cvrp_io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verypy/cvrp_io.py b/verypy/cvrp_io.py
index 8e298a0..15cac61 100644
--- a/verypy/cvrp_io.py
+++ b/verypy/cvrp_io.py
@@ -132,7 +132,7 @@ def read_OPT_CVRP(file_name):
                         solution.append(p_idx)
                         first_node = False
                 if "cost" in l.lower():
-                    _, coststring = l.split()
+                    coststring = l.replace(":"," ").split()[-1]
                     
                     # tries to convert to int and if it fails to float
                     opt_f = None
-- 
2.43.0


From a53564adffd168f82b95da285f22821025c4c35d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:01 +0000
Subject: [PATCH 19/55] fix: count the routes of a solution file

---
 verypy/cvrp_io.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/verypy/cvrp_io.py b/verypy/cvrp_io.py
index 15cac61..7d4e9ea 100644
--- a/verypy/cvrp_io.py
+++ b/verypy/cvrp_io.py
@@ -121,8 +121,7 @@ def read_OPT_CVRP(file_name):
         for l in f.readlines():
             if file_ext == ".opt":
                 if "route" in l.lower():
-                    if not opt_k:
-                        count_k+1
+                    count_k+=1
                     _, routestring = l.split(":")
                     p_idxs = [int(s) for s in routestring.split()]
                     first_node = True
@@ -145,7 +144,7 @@ def read_OPT_CVRP(file_name):
     if len(solution)>1:
         solution.append(0)
         
-    if count_k or not opt_k:
+    if not opt_k:
         opt_k = count_k
     elif opt_k!=count_k:
         print("WARNING: the vehicle count in file name and solution differ", file=stderr)
-- 
2.43.0


From 4a1c0f5035f3904f4af20949e66f6e496ab7bdd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:01 +0000
Subject: [PATCH 20/55] fix: pseudo-Euclidean (ATT) distances follow the TSPLIB
 definition

---
 verypy/cvrp_io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verypy/cvrp_io.py b/verypy/cvrp_io.py
index 7d4e9ea..7adbbfa 100644
--- a/verypy/cvrp_io.py
+++ b/verypy/cvrp_io.py
@@ -73,7 +73,7 @@ def _geo(pt1, pt2):
 def _att(pt1,pt2):
     dx = pt1[0]-pt2[0]
     dy = pt1[1]-pt2[1]
-    r = sqrt(dx**2+dy**2)/10.0
+    r = sqrt((dx**2+dy**2)/10.0)
     t = int(r)
     return t+1 if t<r else t
 
-- 
2.43.0


From 3cbd0396f0af845d1e2b76d29fa1d2699e9c7a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:31 +0000
Subject: [PATCH 21/55] fix: report solutions of problems without a capacity
 constraint

---
 verypy/VeRyPy.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/verypy/VeRyPy.py b/verypy/VeRyPy.py
index 5947bb6..ba36af2 100644
--- a/verypy/VeRyPy.py
+++ b/verypy/VeRyPy.py
@@ -253,7 +253,8 @@ def main(overridden_args=None):
                     tightness = (sum(d)/(C*sol_K))
                 if not bn in instance_data or sol_K<instance_data[bn][1]:
                     #"N K C tightness L st"
-                    instance_data[bn] = (N,sol_K,C,"%.3f"%tightness,L,st)
+                    tightness_txt = None if tightness is None else "%.3f"%tightness
+                    instance_data[bn] = (N,sol_K,C,tightness_txt,L,st)
                     
                 shared_cli.print_problem_information(
                     points, D_c, d, C, L, st, tightness,
-- 
2.43.0


From 8598b5f3778d983920cf4255a81dde8befed8bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:31 +0000
Subject: [PATCH 22/55] fix: collected results of a problem that no algorithm
 solved

---
 verypy/VeRyPy.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/verypy/VeRyPy.py b/verypy/VeRyPy.py
index ba36af2..38ff41b 100644
--- a/verypy/VeRyPy.py
+++ b/verypy/VeRyPy.py
@@ -299,7 +299,9 @@ def main(overridden_args=None):
             print(problem,end="")
             if PRINT_INSTANCE_DATA:            
                 print("\t",end="")
-                print("\t".join( str(e) for e in instance_data[problem] ),end="")
+                # instance data is missing if no algorithm solved the problem
+                print("\t".join( str(e) for e in instance_data.get(
+                        problem, [None]*6) ),end="")
             for _, result in sorted(algo_results.items()):
                 print("\t", result,end="")
             print()
-- 
2.43.0


From 27d6808753e909a3c6f3eac2e377c78bd27983ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:12 +0000
Subject: [PATCH 23/55] fix: rounding of the distances with the command line
 option -D ROUND

---
 verypy/VeRyPy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verypy/VeRyPy.py b/verypy/VeRyPy.py
index 38ff41b..cf6f095 100644
--- a/verypy/VeRyPy.py
+++ b/verypy/VeRyPy.py
@@ -167,7 +167,7 @@ def main(overridden_args=None):
             D = np.floor(D)
             ewt = "FLOOR_2D"
         if app_args.dist_weight_format == "ROUND":
-            D = np.int(D)
+            D = np.round(D)
             ewt = "EUC_2D"
             
         # Bake service time to D (if needed)
-- 
2.43.0


From 3ee5cada657b3f2a6fc00f89dce758c32ce986a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:10 +0000
Subject: [PATCH 24/55] fix: recursive search lists the problem files of nested
 folders only once

---
 verypy/shared_cli.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/verypy/shared_cli.py b/verypy/shared_cli.py
index 809eddf..8161bc9 100644
--- a/verypy/shared_cli.py
+++ b/verypy/shared_cli.py
@@ -157,7 +157,8 @@ def read_and_solve_a_problem(problem_instance_path, with_algorithm_function,
 def get_a_problem_file_list(problem_paths, recursive=False):
     files_to_solve = []
     if recursive:
-        for problem_path in problem_paths:
+        # make a copy as the walk already visits the added subfolders
+        for problem_path in list(problem_paths):
             for root, dirs, _ in walk(problem_path):
                 problem_paths += [path.join(root,d) for d in dirs]
 
-- 
2.43.0


From 4a70f5e3030f66401d98b896f04d38004be2d8dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:22 +0000
Subject: [PATCH 25/55] fix: Wren & Holliday heuristic solves a single customer
 problem with one sweep

---
 verypy/classic_heuristics/wren_holliday_sweep.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/verypy/classic_heuristics/wren_holliday_sweep.py b/verypy/classic_heuristics/wren_holliday_sweep.py
index 0edff81..daefca7 100644
--- a/verypy/classic_heuristics/wren_holliday_sweep.py
+++ b/verypy/classic_heuristics/wren_holliday_sweep.py
@@ -569,7 +569,8 @@ def wren_holliday_init(points, D, d, C, L=None, minimize_K=False,
             nodes = list(range(N-1))
             sweeps.extend( zip( nodes, [cur_dir]*len(nodes) ) )
         elif type(seed_node)==int:
-            sweeps.append( [seed_node, cur_dir] )
+            # if there are not enough customers, wrap around
+            sweeps.append( [seed_node%(N-1), cur_dir] )
         
     ## PHASE 1 : "Generate ... initial solutions and choose the best"    
     initial_sols  = []
-- 
2.43.0


From a26c5587fa3ab7007db9ec50e4e473f55dec3e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:48 +0000
Subject: [PATCH 26/55] fix: cheapest insertion breaks ties deterministically

---
 verypy/classic_heuristics/cheapest_insertion.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/verypy/classic_heuristics/cheapest_insertion.py b/verypy/classic_heuristics/cheapest_insertion.py
index 0b73663..5246ce1 100644
--- a/verypy/classic_heuristics/cheapest_insertion.py
+++ b/verypy/classic_heuristics/cheapest_insertion.py
@@ -50,6 +50,7 @@ class _EmergingRouteData:
     constructed in the same place. """
     def __init__(self, seed_customers, D, d):
         self.potential_insertions = []
+        self.insertion_count = 0
         if seed_customers:
             lroute = [0]+seed_customers+[0]
             self.route = dllist(lroute)
@@ -123,7 +124,10 @@ def _new_potential_insertions(unrouted, D, d, C, L, rd, after, before,
         #sorting_key = (-strain, +D[after.value, customer]
         #                        +D[customer, before.value], -customer)
         
-        heappush( rd.potential_insertions, (sorting_key, id(insertion), insertion) )
+        # break the ties in the order in which the insertions were generated
+        rd.insertion_count += 1
+        heappush( rd.potential_insertions,
+                  (sorting_key, rd.insertion_count, insertion) )
       
 
 def _seems_valid_insertion(insertion, route_current_d, unrouted, D, d, C):  
-- 
2.43.0


From 0ff47eeb47300de90ce5f0cd8d56899476ae3e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:37 +0000
Subject: [PATCH 27/55] fix: an interrupt between parameter combinations was
 swallowed

---
 verypy/classic_heuristics/gaskell_savings.py        | 2 +-
 verypy/classic_heuristics/mole_jameson_insertion.py | 2 +-
 verypy/classic_heuristics/paessens_savings.py       | 2 +-
 verypy/classic_heuristics/suppression_savings.py    | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/verypy/classic_heuristics/gaskell_savings.py b/verypy/classic_heuristics/gaskell_savings.py
index 508bda8..e7e35e1 100644
--- a/verypy/classic_heuristics/gaskell_savings.py
+++ b/verypy/classic_heuristics/gaskell_savings.py
@@ -99,7 +99,7 @@ def gaskell_savings_init(D,d,C,L, minimize_K=False, savings_method="both"):
             # lambda or pi was interrupted
             if len(e.args)>0 and type(e.args[0]) is list:
                 sol = e.args[0]
-                interrupted = True
+            interrupted = True
         if sol:
             sol_f = objf(sol, D)
             sol_K = sol.count(0)-1
diff --git a/verypy/classic_heuristics/mole_jameson_insertion.py b/verypy/classic_heuristics/mole_jameson_insertion.py
index cacc096..814c083 100644
--- a/verypy/classic_heuristics/mole_jameson_insertion.py
+++ b/verypy/classic_heuristics/mole_jameson_insertion.py
@@ -270,7 +270,7 @@ def mole_jameson_insertion_init(D, d, C, L=None, minimize_K=False,
             # some of the strain function insertion runs was interrupted
             if len(e.args)>0 and type(e.args[0]) is list:
                 sol = e.args[0]
-                interrupted = True
+            interrupted = True
            
         if sol:
             sol_f = objf(sol, D)
diff --git a/verypy/classic_heuristics/paessens_savings.py b/verypy/classic_heuristics/paessens_savings.py
index 46b60ef..b26aa0d 100644
--- a/verypy/classic_heuristics/paessens_savings.py
+++ b/verypy/classic_heuristics/paessens_savings.py
@@ -117,7 +117,7 @@ def paessens_savings_init(D,d,C,L, minimize_K=False,
             # some parameter combination was interrupted
             if len(e.args)>0 and type(e.args[0]) is list:
                 sol = e.args[0]
-                interrupted = True
+            interrupted = True
         if sol:
             sol_f = objf(sol, D)
             sol_K = sol.count(0)-1
diff --git a/verypy/classic_heuristics/suppression_savings.py b/verypy/classic_heuristics/suppression_savings.py
index dc2ccdf..a8abe89 100644
--- a/verypy/classic_heuristics/suppression_savings.py
+++ b/verypy/classic_heuristics/suppression_savings.py
@@ -141,7 +141,7 @@ def suppression_savings_init(D,d,C,L, minimize_K=False, Lprime="auto"):
         except KeyboardInterrupt as e: # or SIGINT
             if len(e.args)>0 and type(e.args[0]) is list:
                 sol = e.args[0]
-                interrupted = True
+            interrupted = True
         if sol:
             sol_f = objf(sol, D)
             sol_K = sol.count(0)-1
-- 
2.43.0


From ebacd7384cb7e809f971576de0469377ba89a2a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:37 +0000
Subject: [PATCH 28/55] fix: interrupting nearest neighbor with all customers
 routed raised TypeError

---
 verypy/classic_heuristics/nearest_neighbor.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/verypy/classic_heuristics/nearest_neighbor.py b/verypy/classic_heuristics/nearest_neighbor.py
index 53de929..5a41157 100644
--- a/verypy/classic_heuristics/nearest_neighbor.py
+++ b/verypy/classic_heuristics/nearest_neighbor.py
@@ -320,10 +320,7 @@ def nearest_neighbor_init(D, d, C, L=None,
             if sol:
                 unroutedr = [[n] for n in range(N)
                              if (n not in sol)]
-                if sol and len(sol)>1:
-                    interrupted_sol = sol[:-1]+routes2sol( unroutedr )
-                else:
-                    interrupted_sol = routes2sol( unroutedr )
+                interrupted_sol = sol[:-1]+(routes2sol( unroutedr ) or [0])
                 raise KeyboardInterrupt(interrupted_sol)
                 
         elif len(sol)==1:
-- 
2.43.0


From d9b27f97ed127b5370b235a5479969312ec88a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:35 +0000
Subject: [PATCH 29/55] fix: an interrupted cheapest insertion could repeat or
 lose customers

---
 verypy/classic_heuristics/cheapest_insertion.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/verypy/classic_heuristics/cheapest_insertion.py b/verypy/classic_heuristics/cheapest_insertion.py
index 5246ce1..44f9254 100644
--- a/verypy/classic_heuristics/cheapest_insertion.py
+++ b/verypy/classic_heuristics/cheapest_insertion.py
@@ -406,9 +406,12 @@ def cheapest_insertion_init(D, d, C, L=None, minimize_K=False,
     
                 route_datas[route_index] = rd            
     except KeyboardInterrupt:  #or SIGINT
-        interrupted_sol = [0]+_EmergingRouteData.export_solution(route_datas)\
+        # the route that was just completed may still be among the open ones
+        open_routes = [rd for rd in route_datas
+                       if not any(rd is cr for cr in complete_routes)]
+        interrupted_sol = [0]+_EmergingRouteData.export_solution(open_routes)\
                           +_EmergingRouteData.export_solution(complete_routes)
-        interrupted_sol.extend( routes2sol([n] for n in unrouted
+        interrupted_sol.extend( routes2sol([n] for n in range(1,len(D))
                                            if n not in interrupted_sol)[1:] )
         raise KeyboardInterrupt(interrupted_sol)
                               
-- 
2.43.0


From e341170de995d177895fc64720e8a09e64fb405d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:35 +0000
Subject: [PATCH 30/55] fix: interrupting the two-phase heuristic lost the
 customers of the unfinished route

---
 verypy/classic_heuristics/cmt_2phase.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/verypy/classic_heuristics/cmt_2phase.py b/verypy/classic_heuristics/cmt_2phase.py
index acdca43..880c135 100644
--- a/verypy/classic_heuristics/cmt_2phase.py
+++ b/verypy/classic_heuristics/cmt_2phase.py
@@ -179,7 +179,9 @@ def _phase_one(lambda_multiplier, D,d,C,L, seed_f, rr):
             total_cost += route_cost
             sol+=route
     except KeyboardInterrupt:  #or SIGINT
-        interrupted_sol = sol+routes2sol([n] for n in unrouted if n not in sol)
+        # also the customers of the unfinished route are yet to be routed
+        interrupted_sol = sol+routes2sol([n] for n in range(1,len(D))
+                                         if n not in sol)
         raise KeyboardInterrupt(interrupted_sol)
         
     sol+=[0]
@@ -397,7 +399,7 @@ def _phase_two(mu_multiplier,route_seeds, D,d,C,L, rr,
                                                   route_l_updated) #cost state
     except KeyboardInterrupt: #or SIGINT
         rs_sol, _ = _routestates2solution(routes, D)
-        interrupted_sol = rs_sol[:-1]+routes2sol([n] for n in unrouted_nodes
+        interrupted_sol = rs_sol[:-1]+routes2sol([n] for n in range(1,len(D))
                                                 if n not in rs_sol)
         raise KeyboardInterrupt(interrupted_sol)
     
-- 
2.43.0


From be644e2a1b8523970500306a05775fa61e1d388d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:18 +0000
Subject: [PATCH 31/55] fix: an interrupted Mole and Jameson insertion could
 leave an infeasible route

---
 .../mole_jameson_insertion.py                 | 48 ++++++++++---------
 1 file changed, 26 insertions(+), 22 deletions(-)

diff --git a/verypy/classic_heuristics/mole_jameson_insertion.py b/verypy/classic_heuristics/mole_jameson_insertion.py
index 814c083..5ee8224 100644
--- a/verypy/classic_heuristics/mole_jameson_insertion.py
+++ b/verypy/classic_heuristics/mole_jameson_insertion.py
@@ -63,31 +63,35 @@ def _try_insert_2opt_and_update(insertion, rd, D, L, minimize_K):
     route_2opt_improved = list(rd.route)
     total_delta = insertion.cost_delta
     applied_2opt_moves = False
-    while True:
-        updated_route, delta = do_2opt_move(route_2opt_improved, D,
-                                            strategy=LSOPT.BEST_ACCEPT)
-        if delta is not None:
-            applied_2opt_moves = True
-            total_delta+=delta
-            route_2opt_improved = updated_route
-        else:
-            break
+    try:
+        while True:
+            updated_route, delta = do_2opt_move(route_2opt_improved, D,
+                                                strategy=LSOPT.BEST_ACCEPT)
+            if delta is not None:
+                applied_2opt_moves = True
+                total_delta+=delta
+                route_2opt_improved = updated_route
+            else:
+                break
     
-    # do not accept insertions/moves that make the solution worse!
-    if not minimize_K:
-        # Compared to a solution where the customer is served individually
-        insertion_cost = total_delta-D[0,insertion.customer]-D[insertion.customer,0]
-        if insertion_cost > 0:
-            if __debug__:
-                log(DEBUG-2,("Rejecting insertion of n%d "%insertion.customer)+
-                            ("as it is expected make solution worse."))
+        # do not accept insertions/moves that make the solution worse!
+        if not minimize_K:
+            # Compared to a solution where the customer is served individually
+            insertion_cost = total_delta-D[0,insertion.customer]-D[insertion.customer,0]
+            if insertion_cost > 0:
+                if __debug__:
+                    log(DEBUG-2,("Rejecting insertion of n%d "%insertion.customer)+
+                                ("as it is expected make solution worse."))
+                rd.route.remove(inserted) # reverse the change
+                return False, None
+    
+        if L and rd.cost+total_delta-S_EPS > L:
+            # The L constraint cannot be satisfied, even with 2-opt
             rd.route.remove(inserted) # reverse the change
             return False, None
-    
-    if L and rd.cost+total_delta-S_EPS > L:
-        # The L constraint cannot be satisfied, even with 2-opt
-        rd.route.remove(inserted) # reverse the change
-        return False, None
+    except KeyboardInterrupt: #or SIGINT
+        rd.route.remove(inserted) # the change is not known to be feasible
+        raise
     
     rd.cost += total_delta
     rd.used_capacity += insertion.demand_delta 
-- 
2.43.0


From b9513cbef35c5b4e4bdf67f861b71e1f27c30460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:18 +0000
Subject: [PATCH 32/55] fix: an interrupted route first cluster second run did
 not return a solution

---
 verypy/classic_heuristics/rfcs.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/verypy/classic_heuristics/rfcs.py b/verypy/classic_heuristics/rfcs.py
index d9b5cff..edcd11c 100644
--- a/verypy/classic_heuristics/rfcs.py
+++ b/verypy/classic_heuristics/rfcs.py
@@ -125,6 +125,11 @@ def _partition_to_routes_with_cost_matrix(D, d, C, L, giant_tour,
                     sequence_D[i,j] = sequence_D[i,k]+sequence_D[k,j]
                     next_split[i,j] = next_split[i,k]
     
+    if interrupted and np.min(sequence_D.diagonal())==np.inf:
+        # not enough feasible sequences to partition the entire giant tour
+        raise KeyboardInterrupt([0]+[n for c in giant_tour[:gtl]
+                                       for n in (c,0)])
+    
     # build a solution based on the Floyd's algorithm *next* matrix for the 
     #  least cost tour, 
     best_start_idx = np.argmin(sequence_D.diagonal())
@@ -147,10 +152,7 @@ def _partition_to_routes_with_cost_matrix(D, d, C, L, giant_tour,
             if u_idx+1 == gtl:
                 u_idx = -1
             route[-1] = giant_tour[u_idx+1]
-            if not interrupted:
-                route, _ = partition_tsp_opt_algo(D, route)
-            else:
-                route.append(0)
+            route, route_cost = partition_tsp_opt_algo(D, route)
             u_idx+=1
         
         if not interrupted:
-- 
2.43.0


From deac95e6d117ff3f362a50f1c005bbdc8d01f6d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:10 +0000
Subject: [PATCH 33/55] fix: a sweep that ended over the route limit dropped
 the wrong customer and resumed at the wrong one

---
 verypy/classic_heuristics/sweep.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/verypy/classic_heuristics/sweep.py b/verypy/classic_heuristics/sweep.py
index 6e9c5bb..28c83da 100644
--- a/verypy/classic_heuristics/sweep.py
+++ b/verypy/classic_heuristics/sweep.py
@@ -226,15 +226,17 @@ def do_one_sweep(N, D, d, C, L, routing_algo,
                 log(DEBUG-3, "Got TSP solution %s (%.2f)"%(str(tsp_sol),tsp_cost))
                      
             if L:
+                # if the sweep is over, sweep_pos is the last one swept
+                next_pos = sweep_pos if sweep_node is not None else \
+                           _step(sweep_pos, step_inc, max_sweep_idx)
                 L_feasible_pos = _ensure_L_feasible(D, d, C, L, 
-                    current_route, sweep_pos, step_inc, max_sweep_idx, routed, 
+                    current_route, next_pos, step_inc, max_sweep_idx, routed, 
                     sweep_pos_to_node_idx, routing_algo)
                 current_route_cost_upper_bound = current_route.cost
                 
-                if L_feasible_pos!=sweep_pos:
+                if L_feasible_pos!=next_pos:
                     sweep_pos = L_feasible_pos  
-                    if sweep_node!=None:
-                        sweep_node = sweep_pos_to_node_idx(sweep_pos)
+                    sweep_node = sweep_pos_to_node_idx(sweep_pos)
                     # route is full if L constraint was violated
                     route_complete = True
                     route_interesting = False
-- 
2.43.0


From d21cd649830d91d08756ad996e6fd96863508dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:41 +0000
Subject: [PATCH 34/55] fix: a sweep resumed over the route limit could keep
 improving the same route forever

After the last customer the next route is started from the removed customer
without calling the improvement heuristic of Gillett and Miller again.
---
 verypy/classic_heuristics/sweep.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/verypy/classic_heuristics/sweep.py b/verypy/classic_heuristics/sweep.py
index 28c83da..324822c 100644
--- a/verypy/classic_heuristics/sweep.py
+++ b/verypy/classic_heuristics/sweep.py
@@ -235,8 +235,13 @@ def do_one_sweep(N, D, d, C, L, routing_algo,
                 current_route_cost_upper_bound = current_route.cost
                 
                 if L_feasible_pos!=next_pos:
-                    sweep_pos = L_feasible_pos  
-                    sweep_node = sweep_pos_to_node_idx(sweep_pos)
+                    if sweep_node is not None:
+                        sweep_pos = L_feasible_pos  
+                        sweep_node = sweep_pos_to_node_idx(sweep_pos)
+                    else:
+                        # start the next route from the removed customer
+                        sweep_pos = _step(L_feasible_pos, -step_inc, 
+                                          max_sweep_idx)
                     # route is full if L constraint was violated
                     route_complete = True
                     route_interesting = False
-- 
2.43.0


From 23e42e80730fd23f866fa369e97fa43075a51507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:37:32 +0000
Subject: [PATCH 35/55] fix: find the problem files of a folder with brackets
 or wildcards in its name

---
 verypy/shared_cli.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/verypy/shared_cli.py b/verypy/shared_cli.py
index 8161bc9..5868e62 100644
--- a/verypy/shared_cli.py
+++ b/verypy/shared_cli.py
@@ -13,6 +13,7 @@ import sys
 from time import time
 from os import path, walk
 from glob import glob
+from re import sub
 import logging
 
 import verypy.cvrp_ops as cvrp_ops
@@ -164,11 +165,13 @@ def get_a_problem_file_list(problem_paths, recursive=False):
 
     for problem_path in problem_paths:
         if path.isdir(problem_path):
-            for in_fn in natural_sort(glob(path.join(problem_path, "*.vrp"))):
+            # the folder name is not a pattern even if it has e.g. brackets 
+            folder = sub(r"([*?[])", r"[\1]", problem_path)
+            for in_fn in natural_sort(glob(path.join(folder, "*.vrp"))):
                 files_to_solve.append( in_fn )
-            for in_fn in natural_sort(glob(path.join(problem_path, "*.tsp"))):
+            for in_fn in natural_sort(glob(path.join(folder, "*.tsp"))):
                 files_to_solve.append( in_fn )
-            for in_fn in natural_sort(glob(path.join(problem_path, "*.pickle"))):
+            for in_fn in natural_sort(glob(path.join(folder, "*.pickle"))):
                 files_to_solve.append( in_fn )
         elif path.isfile(problem_path) and problem_path[-4:].lower()==".txt":
             with open(problem_path, 'r') as vrp_list_file:
-- 
2.43.0


From 5c5b452e0846eb2bd691f6281237bf1856087f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:39:03 +0000
Subject: [PATCH 36/55] fix: a folder that is named like a problem file is not
 a problem file

---
 verypy/shared_cli.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/verypy/shared_cli.py b/verypy/shared_cli.py
index 5868e62..fc18e55 100644
--- a/verypy/shared_cli.py
+++ b/verypy/shared_cli.py
@@ -167,11 +167,11 @@ def get_a_problem_file_list(problem_paths, recursive=False):
         if path.isdir(problem_path):
             # the folder name is not a pattern even if it has e.g. brackets 
             folder = sub(r"([*?[])", r"[\1]", problem_path)
-            for in_fn in natural_sort(glob(path.join(folder, "*.vrp"))):
+            for in_fn in natural_sort(filter(path.isfile, glob(path.join(folder, "*.vrp")))):
                 files_to_solve.append( in_fn )
-            for in_fn in natural_sort(glob(path.join(folder, "*.tsp"))):
+            for in_fn in natural_sort(filter(path.isfile, glob(path.join(folder, "*.tsp")))):
                 files_to_solve.append( in_fn )
-            for in_fn in natural_sort(glob(path.join(folder, "*.pickle"))):
+            for in_fn in natural_sort(filter(path.isfile, glob(path.join(folder, "*.pickle")))):
                 files_to_solve.append( in_fn )
         elif path.isfile(problem_path) and problem_path[-4:].lower()==".txt":
             with open(problem_path, 'r') as vrp_list_file:
-- 
2.43.0


From c3ed8d7ab68d0c4cc00d7c4b92271367c32c8fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:49:24 +0000
Subject: [PATCH 37/55] fix: the petal heuristic could not be loaded without
 LKH

---
 verypy/classic_heuristics/petalvrp.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/verypy/classic_heuristics/petalvrp.py b/verypy/classic_heuristics/petalvrp.py
index 4ddd53d..de9b6e6 100644
--- a/verypy/classic_heuristics/petalvrp.py
+++ b/verypy/classic_heuristics/petalvrp.py
@@ -21,6 +21,7 @@ from signal import signal, SIGINT, default_int_handler
 from collections import namedtuple
 from math import ceil    
 from logging import log, DEBUG
+from sys import stderr
 
 from gurobipy import Model, GRB, GurobiError, quicksum
 
-- 
2.43.0


From 78763f64c99452c32a28c1184b00248878793647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:49:24 +0000
Subject: [PATCH 38/55] fix: the matching based savings never ended when the
 best merge is a loss

---
 verypy/classic_heuristics/matchingvrp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verypy/classic_heuristics/matchingvrp.py b/verypy/classic_heuristics/matchingvrp.py
index 1116b11..510e10c 100644
--- a/verypy/classic_heuristics/matchingvrp.py
+++ b/verypy/classic_heuristics/matchingvrp.py
@@ -308,7 +308,7 @@ def mbsa_init(D, d, C, L, minimize_K=False, W=0.0, solve_tsp=default_solve_tsp,
                 break
             
             if ignore_negative_savings and best_savings<0:
-                continue # do not allow merges that would make the solution worse
+                break    # do not allow merges that would make the solution worse
                          # (even if it would mean fewer routes)
     
             if __debug__:
-- 
2.43.0


From 9194cd7d315f16ecee1ff0321e32ac0c4cf6d1b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:49:24 +0000
Subject: [PATCH 39/55] fix: the matching based savings crashed when all
 customers fit on one route

---
 verypy/classic_heuristics/matchingvrp.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/verypy/classic_heuristics/matchingvrp.py b/verypy/classic_heuristics/matchingvrp.py
index 510e10c..8b1701c 100644
--- a/verypy/classic_heuristics/matchingvrp.py
+++ b/verypy/classic_heuristics/matchingvrp.py
@@ -290,6 +290,8 @@ def mbsa_init(D, d, C, L, minimize_K=False, W=0.0, solve_tsp=default_solve_tsp,
         while True:
             ## Step 1: Evaluate the weights and solve the weighted matching prolbem
             
+            if not savings:
+                break # only one route left
             w_ij,x_ij_keys = zip(*savings)
             valid_matchings = any( w for w in w_ij if w!=W )
             if valid_matchings==0:
-- 
2.43.0


From 6f0d015144f9dec0bafd2291c9094a779121c9e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:49:24 +0000
Subject: [PATCH 40/55] fix: the number of routes the GAP heuristic starts from
 could be zero or too large

---
 verypy/classic_heuristics/gapvrp.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/verypy/classic_heuristics/gapvrp.py b/verypy/classic_heuristics/gapvrp.py
index a1f7f9a..24b91b6 100644
--- a/verypy/classic_heuristics/gapvrp.py
+++ b/verypy/classic_heuristics/gapvrp.py
@@ -729,6 +729,8 @@ def gap_init(points, D, d, C, L=None, st=None, K=None, minimize_K=True,
                 if tsp_f+sum(shortest_depot_edges[:startK*2])<=startK*L:
                     break
                 startK+=1
+            # no more routes than customers are needed, and at least one is
+            startK = max(1, min(startK, N-1))
         else:
             raise ValueError("If C and L have not been set, K is required")   
         maxK = N-1
-- 
2.43.0


From b5c079348c5ff58606839c306c35b46e54bcc599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:51 +0000
Subject: [PATCH 41/55] fix: a single run of the petal heuristic could return a
 solution that misses customers

---
 verypy/classic_heuristics/petalvrp.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/verypy/classic_heuristics/petalvrp.py b/verypy/classic_heuristics/petalvrp.py
index de9b6e6..cfb0328 100644
--- a/verypy/classic_heuristics/petalvrp.py
+++ b/verypy/classic_heuristics/petalvrp.py
@@ -936,6 +936,7 @@ def petal_init(points, D, d, C, L, K=None,
                 break
                 
             if required_iterations and iteration_counter>=required_iterations and\
+                best_sol_feasible and\
                 not (min_iterations and iteration_counter<min_iterations):        
                 break # main iteration loop
         
-- 
2.43.0


From 2885bd54062d2249616a0a0c0f7d6fa07dbcc611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:55:30 +0000
Subject: [PATCH 42/55] fix: the petal heuristic never ended when all solutions
 were tried while minimizing routes

---
 verypy/classic_heuristics/petalvrp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verypy/classic_heuristics/petalvrp.py b/verypy/classic_heuristics/petalvrp.py
index cfb0328..f317403 100644
--- a/verypy/classic_heuristics/petalvrp.py
+++ b/verypy/classic_heuristics/petalvrp.py
@@ -867,7 +867,7 @@ def petal_init(points, D, d, C, L, K=None,
                     ptl_set = PTL_SET.REDUCED
                 elif ptl_set == PTL_SET.REDUCED:
                     ptl_set = PTL_SET.EXTENDED
-                elif K_constraint:
+                elif K_constraint and K_constraint<N-1 and not best_sol_feasible:
                     ptl_set = PTL_SET.RESTRICTED
                     K_constraint = K_constraint+1
                 else:
-- 
2.43.0


From d06821e8bfebda9d6410ec1180470ff2fbc5d463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:13 +0000
Subject: [PATCH 43/55] fix: the GAP heuristic crashed when all customers share
 a location

---
 verypy/classic_heuristics/gapvrp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verypy/classic_heuristics/gapvrp.py b/verypy/classic_heuristics/gapvrp.py
index 24b91b6..0e49bb4 100644
--- a/verypy/classic_heuristics/gapvrp.py
+++ b/verypy/classic_heuristics/gapvrp.py
@@ -349,7 +349,7 @@ def _sweep_seed_points(points, D, d, C, K, trial=0):
     
     depot_x = points[0][0]
     depot_y = points[0][1]
-    for k, grouped_cone in enumerate(grouped_cones):
+    for k, grouped_cone in enumerate(grouped_cones[:K]):
         if __debug__:
             log(DEBUG-3," ===========================================")
             log(DEBUG-3," #%d %s"%(k, str(grouped_cone)))
-- 
2.43.0


From 3cb07caee033d5841bdb282bfe1d0eeb584c29e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:37 +0000
Subject: [PATCH 44/55] fix: discarding customers could make a relaxed petal
 longer than the route limit

---
 verypy/classic_heuristics/petalvrp.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/verypy/classic_heuristics/petalvrp.py b/verypy/classic_heuristics/petalvrp.py
index f317403..4709393 100644
--- a/verypy/classic_heuristics/petalvrp.py
+++ b/verypy/classic_heuristics/petalvrp.py
@@ -138,11 +138,10 @@ def _regain_feasibility(to_move, r1_delta, r2_delta, rd1_aftermove, ri1, ri2,
             if delta < new_r2_delta:
                 new_r2_delta = delta
                 best_j = j
-        to_remove_l = (r2_l+r2_delta)-(new_r2_l+new_r2_delta)
         new_route2 = new_route2[:best_j]+[to_move]+new_route2[best_j:]
         
         if (not d_excess or to_remove_d+C_EPS >= d_excess) and\
-           (not l_excess or to_remove_l+S_EPS >= l_excess):
+           (not L or new_r2_l+new_r2_delta-S_EPS <= L):
             
             # Redistributing ALWAYS increases the cost at least a little,
             #  it makes no sense to even try sometimes.
-- 
2.43.0


From 9d5cc7b549a119d87e2a1a0a2cdc749ab819b021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:37 +0000
Subject: [PATCH 45/55] fix: an interrupt of the petal heuristic could be
 ignored

---
 verypy/classic_heuristics/petalvrp.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/verypy/classic_heuristics/petalvrp.py b/verypy/classic_heuristics/petalvrp.py
index 4709393..187a932 100644
--- a/verypy/classic_heuristics/petalvrp.py
+++ b/verypy/classic_heuristics/petalvrp.py
@@ -862,6 +862,8 @@ def petal_init(points, D, d, C, L, K=None,
             # It may be the case that constraints are so tight that we did not find 
             #  even an infeasbile solution. Do our best to find one by loosening K.
             if not found_solution:
+                if interrupted:
+                    break
                 if ptl_set == PTL_SET.RESTRICTED:
                     ptl_set = PTL_SET.REDUCED
                 elif ptl_set == PTL_SET.REDUCED:
-- 
2.43.0


From d22533644ead508f865641840547c089bab37f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:37 +0000
Subject: [PATCH 46/55] fix: an interrupted petal heuristic could return a
 solution that misses customers

---
 verypy/classic_heuristics/petalvrp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verypy/classic_heuristics/petalvrp.py b/verypy/classic_heuristics/petalvrp.py
index 187a932..1e7f292 100644
--- a/verypy/classic_heuristics/petalvrp.py
+++ b/verypy/classic_heuristics/petalvrp.py
@@ -989,7 +989,7 @@ def petal_init(points, D, d, C, L, K=None,
             break #the main loop
                 
     if interrupted:
-        raise KeyboardInterrupt(best_sol)
+        raise KeyboardInterrupt(best_sol if best_sol_feasible else None)
         
     return best_sol 
         
-- 
2.43.0


From eab522e7462d211f3a6b15786f1378f819254ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:37 +0000
Subject: [PATCH 47/55] fix: an interrupted matching based savings run crashed

---
 verypy/classic_heuristics/matchingvrp.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/verypy/classic_heuristics/matchingvrp.py b/verypy/classic_heuristics/matchingvrp.py
index 8b1701c..d60cc52 100644
--- a/verypy/classic_heuristics/matchingvrp.py
+++ b/verypy/classic_heuristics/matchingvrp.py
@@ -154,6 +154,12 @@ def _geedy_merge(D, d, C, L, W, savings, route_sets, tsp_cache, demand_cache):
     """
     savings.sort(reverse=True)
     
+    # the interrupt may come before the tours of all of the routes are known
+    for nodes in route_sets:
+        if nodes not in tsp_cache:
+            route = [0]+[n for n in nodes if n!=0]+[0]
+            tsp_cache[nodes] = (route, objf(route, D))
+    
     try:    
         
         # Do a first pass where the routes in the tsp_cache are used
@@ -200,10 +206,10 @@ def _geedy_merge(D, d, C, L, W, savings, route_sets, tsp_cache, demand_cache):
             nodes_j = route_sets[route_j]
             chain_i = tsp_cache[nodes_i][0][1:-1]
             l_i = tsp_cache[nodes_i][1]
-            d_i = _get_demand(nodes_i, demand_cache, d)        
+            d_i = _get_demand(nodes_i, demand_cache, d) if C else 0        
             chain_j = tsp_cache[nodes_j][0][1:-1]
             l_j = tsp_cache[nodes_j][1]
-            d_j = _get_demand(nodes_j, demand_cache, d)
+            d_j = _get_demand(nodes_j, demand_cache, d) if C else 0
             
             # check constraints
             if C and d_i+d_j-C_EPS>C: continue
-- 
2.43.0


From 029f9a54159fa1bbc042bc82362e50382214bc8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:31:54 +0000
Subject: [PATCH 48/55] fix: a problem that no run could solve ended the
 command line with an error

---
 verypy/shared_cli.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/verypy/shared_cli.py b/verypy/shared_cli.py
index fc18e55..8724f0f 100644
--- a/verypy/shared_cli.py
+++ b/verypy/shared_cli.py
@@ -153,6 +153,10 @@ def read_and_solve_a_problem(problem_instance_path, with_algorithm_function,
     if interrupted:
         raise KeyboardInterrupt()
     
+    if best_sol is None:
+        print("WARNING: No solution was found", file=sys.stderr)
+        return None, float('inf'), float('inf'), elapsed
+    
     return best_sol, objf(best_sol, D), objf(best_sol, D_c), elapsed
     
 def get_a_problem_file_list(problem_paths, recursive=False):
@@ -313,7 +317,10 @@ def cli(init_name, init_desc, init_f):
             if interrupted:
                 break
                 
-        print_solution_statistics(best_sol, D, D_c, d, C, L, st, verbosity=verbosity)
+        if best_sol is None:
+            print("WARNING: No solution was found", file=sys.stderr)
+        else:
+            print_solution_statistics(best_sol, D, D_c, d, C, L, st, verbosity=verbosity)
     
     problem_file_list = get_a_problem_file_list([sys.argv[-1]])
     if not problem_file_list or "-h" in sys.argv or "--help" in sys.argv:
-- 
2.43.0


From fd0200c774b6ea6bdb8e38a73412012656704ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:38:02 +0000
Subject: [PATCH 49/55] fix: LKH lengths of tours with at most three nodes were
 truncated

---
 verypy/tsp_solvers/tsp_solver_lkh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verypy/tsp_solvers/tsp_solver_lkh.py b/verypy/tsp_solvers/tsp_solver_lkh.py
index b83880b..a54b829 100644
--- a/verypy/tsp_solvers/tsp_solver_lkh.py
+++ b/verypy/tsp_solvers/tsp_solver_lkh.py
@@ -45,7 +45,7 @@ def solve_tsp_lkh(D, selected_idxs,
         sol_f = 0
         for n in sol:
             if p is not None:
-                sol_f+=int(D[p,n])
+                sol_f+=D[p,n]
             p=n
         return sol, sol_f
 
-- 
2.43.0


From 24830090dc0ea3892d91b9d76732389f9dedb795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:38:02 +0000
Subject: [PATCH 50/55] fix: the ACOTSP wrapper crashed for every problem with
 more than three nodes

---
 verypy/tsp_solvers/tsp_solver_acotsp.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/verypy/tsp_solvers/tsp_solver_acotsp.py b/verypy/tsp_solvers/tsp_solver_acotsp.py
index f28b6f1..cdf2427 100644
--- a/verypy/tsp_solvers/tsp_solver_acotsp.py
+++ b/verypy/tsp_solvers/tsp_solver_acotsp.py
@@ -69,7 +69,7 @@ def solve_tsp_acotsp(D, selected_idxs,
         return sol, sol_f
 
     # 1. Create a TSPLIB file
-    are_float_distances = issubclass(D.dtype.type, np.float)
+    are_float_distances = np.issubdtype(D.dtype.type, np.floating)
     if not are_float_distances:
         float_accuracy = None
     with NamedTemporaryFile( delete=False, suffix='.tsp') as tmpfile:
@@ -84,7 +84,6 @@ def solve_tsp_acotsp(D, selected_idxs,
         command = [ACOTSP_EXE_PATH, "--quiet", "-i", temp_problem_file_path]
     else:
         # use only local 2-opt+3-opt local search
-        nul_f = open(os.devnull, 'w')
         command = [ACOTSP_EXE_PATH,
                    "-r", "1", # one try is enough without ants (determnistic)
                    "-m", "1", # one (deteministic) ant is still needed 
@@ -95,6 +94,7 @@ def solve_tsp_acotsp(D, selected_idxs,
                    "-l", "3", # do 3-opt
                    "--quiet", # in 1.03 disables writing the files
                    "-i", temp_problem_file_path]
+    nul_f = open(os.devnull, 'w')
     p = Popen(command, stdout=PIPE, stdin=PIPE, stderr=nul_f)
     # In Python3 bytes go in and come out. Special handling is required.
     #  (not pretty, but allows smoketests to pass on Py3)
@@ -102,6 +102,7 @@ def solve_tsp_acotsp(D, selected_idxs,
         stdout_data = p.communicate(input=b' ')[0].decode('ascii')
     else:
         stdout_data = p.communicate(input=' ')[0]
+    nul_f.close()
 
   
     #if __debug__:    
-- 
2.43.0


From 64cd0dadab7dcff42905bd584e4cf04cdc4ae1fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:05:54 +0000
Subject: [PATCH 51/55] fix: the naive 2-opt* move called a function that does
 not exist

---
 verypy/local_search/naive_implementations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verypy/local_search/naive_implementations.py b/verypy/local_search/naive_implementations.py
index 6bcad14..c3ca13d 100644
--- a/verypy/local_search/naive_implementations.py
+++ b/verypy/local_search/naive_implementations.py
@@ -225,7 +225,7 @@ def do_naive_2optstar_move(solution,D,d,C,L,
 
          
                 if delta+S_EPS<best_delta:
-                    if fast_constraint_check(ansatz_sol,D,demands,C,L):
+                    if _naive_constraint_check(ansatz_sol,D,demands,C,L):
                         best_delta = delta
                         best_sol = ansatz_sol
                         
-- 
2.43.0


From 02f5a278345c3fad0b8a0b02a504cf4fea8b9535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:05:54 +0000
Subject: [PATCH 52/55] fix: the naive local search ignored its iteration limit

---
 verypy/local_search/naive_implementations.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/verypy/local_search/naive_implementations.py b/verypy/local_search/naive_implementations.py
index c3ca13d..43a7359 100644
--- a/verypy/local_search/naive_implementations.py
+++ b/verypy/local_search/naive_implementations.py
@@ -483,9 +483,9 @@ def do_naive_local_search(ls_ops, sol, D, d, C, L = None,
                    new_sol, objf(new_sol, D), elapsed_t))
             
             sol = new_sol            
-            iteration += 1
-            if max_iterations and iteration==max_iterations:
-                break
+        iteration += 1
+        if max_iterations and iteration>=max_iterations:
+            break
     return sol
 
         
-- 
2.43.0


From 1c8e98781598d85ecd76ae064b763e81f98cacdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:06:25 +0000
Subject: [PATCH 53/55] fix: sorting file names with other than 0-9 digits
 ended in an error

---
 verypy/util.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/verypy/util.py b/verypy/util.py
index 302dc77..339a7d7 100644
--- a/verypy/util.py
+++ b/verypy/util.py
@@ -128,7 +128,8 @@ def natural_sort(l):
     From: https://stackoverflow.com/a/4836734 which attributes Jeff Atwood:
     https://blog.codinghorror.com/sorting-for-humans-natural-sort-order/
     """
-    convert = lambda text: int(text) if text.isdigit() else text.lower()
+    # there are also other digits than those the elements are split with
+    convert = lambda text: int(text) if re.match('[0-9]', text) else text.lower()
     alphanum_key = lambda key: [convert(c) for c in re.split('([0-9]+)', key)]
     return sorted(l, key=alphanum_key)
 
-- 
2.43.0


From e666d774739fc274a802994053dd2808db10de1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:06:25 +0000
Subject: [PATCH 54/55] fix: first_valid always raised an error

---
 verypy/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verypy/util.py b/verypy/util.py
index 339a7d7..a1e8889 100644
--- a/verypy/util.py
+++ b/verypy/util.py
@@ -62,7 +62,7 @@ def totald(sol, d):
 def first_valid(l):
     """Returns the first non-None or otherwise valid (evals to true) item from
     the list, or None if no such item exists."""
-    return next((item for item in l if item), default=None)
+    return next((item for item in l if item), None)
     
 def is_better_sol(best_f, best_K, sol_f, sol_K, minimize_K):
     """Compares a solution against the current best and returns True if the
-- 
2.43.0


From 90ba0ac0386be6ff0239f19ea2dbf95e0f4a3f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:34:20 +0000
Subject: [PATCH 55/55] fix: drawing points on one line or on one spot ended in
 an error

---
 verypy/visualizers/shared_visualize.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/verypy/visualizers/shared_visualize.py b/verypy/visualizers/shared_visualize.py
index 7ee08d4..ebc8788 100644
--- a/verypy/visualizers/shared_visualize.py
+++ b/verypy/visualizers/shared_visualize.py
@@ -288,6 +288,10 @@ def get_normalization_params(pts, to_range, keep_aspect_ratio=False):
         rangex = max(rangex, rangey)
         rangey = rangex
     
+    # points on one horizontal or vertical line (or on one spot)
+    rangex = rangex or 1.0
+    rangey = rangey or 1.0
+    
     return (minx,miny,rangex,rangey,minr,ranger)
     
 def normalize_to_rect(pts, normalization_params):
-- 
2.43.0

