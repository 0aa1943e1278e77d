From c36a1897da4bf1421db64c78cb5706eaa2e1c2b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:41 +0000
Subject: [PATCH 01/18] fix: removing an atomic model that is not in the graph
 is not undefined behavior

---
 include/adevs/graph.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/adevs/graph.h b/include/adevs/graph.h
index bb7c7f9..32cf74e 100644
--- a/include/adevs/graph.h
+++ b/include/adevs/graph.h
@@ -316,6 +316,10 @@ void Graph<ValueType, TimeType>::remove_atomic(std::shared_ptr<Atomic<ValueType,
         return;
     }
     auto instance_iter = atomic_instance_count.find(model.get());
+    if (instance_iter == atomic_instance_count.end()) {
+        // The model is not in the graph.
+        return;
+    }
     // Decrease the instance count and return.
     (*instance_iter).second--;
     if ((*instance_iter).second > 0) {
-- 
2.43.0


From 3e792cf71201edeee1679c5045845eb684b1e744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:52 +0000
Subject: [PATCH 02/18] fix: removing a pin also removes the edges that end at
 it

---
 include/adevs/graph.h | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/include/adevs/graph.h b/include/adevs/graph.h
index 32cf74e..178b21d 100644
--- a/include/adevs/graph.h
+++ b/include/adevs/graph.h
@@ -289,6 +289,23 @@ void Graph<ValueType, TimeType>::remove_pin(pin_t pin) {
         // Remove the pin from the pin_to_atomic map.
         pin_to_pin.erase(pin);
     }
+    // Remove the edges that end at the pin
+    auto src_iter = pin_to_pin.begin();
+    while (src_iter != pin_to_pin.end()) {
+        auto dst_iter = src_iter->second.begin();
+        while (dst_iter != src_iter->second.end()) {
+            if (dst_iter->first == pin && --(dst_iter->second) == 0) {
+                dst_iter = src_iter->second.erase(dst_iter);
+            } else {
+                dst_iter++;
+            }
+        }
+        if (src_iter->second.empty()) {
+            src_iter = pin_to_pin.erase(src_iter);
+        } else {
+            src_iter++;
+        }
+    }
 }
 
 template <typename ValueType, typename TimeType>
-- 
2.43.0


From 7f752a2cf2d8637b7316afb3516078779445e3fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:57 +0000
Subject: [PATCH 03/18] fix: a model whose tentative Mealy input was retracted
 does not change state

---
 include/adevs/simulator.h | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/include/adevs/simulator.h b/include/adevs/simulator.h
index 1159619..8ea4ce4 100644
--- a/include/adevs/simulator.h
+++ b/include/adevs/simulator.h
@@ -505,11 +505,24 @@ void Simulator<ValueType, TimeType>::computeNextOutput() {
         calculate_mealy_output(path,model);
     }
     // Gather input produced by Mealy models
-    for (auto model: active) {
+    for (auto iter = active.begin(); iter != active.end();) {
+        auto model = *iter;
         while (!model->revisable_inputs.empty()) {
             model->inputs.push_back(model->revisable_inputs.front().second);
             model->revisable_inputs.pop_front();
         }
+        // A model that is not imminent and whose input has been
+        // retracted does not take part in this event
+        if (model->inputs.empty() &&
+            !(sched.minPriority() == tNext && model->tN == sched.minPriority())) {
+            model->outputs.clear();
+            if (model->isMealyAtomic()) {
+                model->isMealyAtomic()->receivers.clear();
+            }
+            iter = active.erase(iter);
+            continue;
+        }
+        ++iter;
         if (model->isMealyAtomic()) {
             for (auto y : model->outputs) {
                 for (auto listener : listeners) {
-- 
2.43.0


From 34a3948b2d4f6905e05d3ab1db6e635499ca3670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:25 +0000
Subject: [PATCH 04/18] fix: adding or removing one of several instances of a
 model does not restart or stop it

---
 include/adevs/simulator.h | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/include/adevs/simulator.h b/include/adevs/simulator.h
index 8ea4ce4..85dc7f3 100644
--- a/include/adevs/simulator.h
+++ b/include/adevs/simulator.h
@@ -574,12 +574,20 @@ TimeType Simulator<ValueType, TimeType>::computeNextState() {
         pending.pop_front();
         switch (op.op) {
             case Graph<ValueType, TimeType>::ADD_ATOMIC:
-                graph->add_atomic(op.model);
-                schedule(op.model.get(), t);
+                // Only the first instance of a model starts it
+                if (graph->get_atomics().find(op.model) == graph->get_atomics().end()) {
+                    graph->add_atomic(op.model);
+                    schedule(op.model.get(), t);
+                } else {
+                    graph->add_atomic(op.model);
+                }
                 break;
             case Graph<ValueType, TimeType>::REMOVE_ATOMIC:
-                sched.schedule(op.model.get(), adevs_inf<TimeType>());
                 graph->remove_atomic(op.model);
+                // The model goes on until its last instance is removed
+                if (graph->get_atomics().find(op.model) == graph->get_atomics().end()) {
+                    sched.schedule(op.model.get(), adevs_inf<TimeType>());
+                }
                 break;
             case Graph<ValueType, TimeType>::REMOVE_PIN:
                 graph->remove_pin(op.pin[0]);
-- 
2.43.0


From 6618956f7698b03c532c4cc1b2065635e6c3b7d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:10 +0000
Subject: [PATCH 05/18] fix: removing a coupled model removes its pin to pin
 couplings

---
 include/adevs/models.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/adevs/models.h b/include/adevs/models.h
index af25b54..14848b0 100644
--- a/include/adevs/models.h
+++ b/include/adevs/models.h
@@ -567,7 +567,7 @@ void Coupled<ValueType, TimeType>::remove_from_graph() {
         g->disconnect(coupling.first, coupling.second);
     }
     for (auto coupling : pin_to_pin) {
-        g->connect(coupling.first, coupling.second);
+        g->disconnect(coupling.first, coupling.second);
     }
     for (auto coupled : coupled_components) {
         coupled->remove_from_graph();
-- 
2.43.0


From f89ee4ac9c6e1b29cc9782bbc0c5a8aa7e643121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:35 +0000
Subject: [PATCH 06/18] fix: changes to a coupled model reach the graph once
 for each of its instances there

---
 include/adevs/models.h    | 87 ++++++++++++++++++++++++++++-----------
 include/adevs/simulator.h |  2 +
 2 files changed, 65 insertions(+), 24 deletions(-)

diff --git a/include/adevs/models.h b/include/adevs/models.h
index 14848b0..98aa807 100644
--- a/include/adevs/models.h
+++ b/include/adevs/models.h
@@ -405,7 +405,7 @@ class Coupled {
     /**
      * @brief Constructor creates a model without components or couplings.
      */
-    Coupled() : g(nullptr) {}
+    Coupled() : g(nullptr), instances(0) {}
     /**
      * @brief Destructor
      *
@@ -496,6 +496,8 @@ class Coupled {
     friend class Simulator<ValueType, TimeType>;
 
     Graph<ValueType, TimeType>* g;
+    // Number of times that this model appears in the graph
+    int instances;
     std::set<std::shared_ptr<Atomic<ValueType, TimeType>>> atomic_components;
     std::set<std::shared_ptr<Coupled<ValueType, TimeType>>> coupled_components;
     /// Pins that provide input to the Atomic models
@@ -505,45 +507,51 @@ class Coupled {
 
     void assign_to_graph(Graph<ValueType, TimeType>* graph);
     void remove_from_graph();
+    void forget_graph();
 };
 
 template <typename ValueType, typename TimeType>
 void Coupled<ValueType, TimeType>::create_coupling(
     pin_t pin, std::shared_ptr<Atomic<ValueType, TimeType>> model) {
-    pin_to_atomic.insert(std::make_pair(pin, model));
-    if (g != nullptr) {
-        g->connect(pin, model);
+    if (pin_to_atomic.insert(std::make_pair(pin, model)).second) {
+        for (int i = 0; i < instances; i++) {
+            g->connect(pin, model);
+        }
     }
 }
 
 template <typename ValueType, typename TimeType>
 void Coupled<ValueType, TimeType>::remove_coupling(
     pin_t pin, std::shared_ptr<Atomic<ValueType, TimeType>> model) {
-    pin_to_atomic.erase(std::make_pair(pin, model));
-    if (g != nullptr) {
-        g->disconnect(pin, model);
+    if (pin_to_atomic.erase(std::make_pair(pin, model)) != 0) {
+        for (int i = 0; i < instances; i++) {
+            g->disconnect(pin, model);
+        }
     }
 }
 
 template <typename ValueType, typename TimeType>
 void Coupled<ValueType, TimeType>::create_coupling(pin_t src, pin_t dst) {
-    pin_to_pin.insert(std::make_pair(src, dst));
-    if (g != nullptr) {
-        g->connect(src, dst);
+    if (pin_to_pin.insert(std::make_pair(src, dst)).second) {
+        for (int i = 0; i < instances; i++) {
+            g->connect(src, dst);
+        }
     }
 }
 
 template <typename ValueType, typename TimeType>
 void Coupled<ValueType, TimeType>::remove_coupling(pin_t src, pin_t dst) {
-    pin_to_pin.erase(std::make_pair(src, dst));
-    if (g != nullptr) {
-        g->disconnect(src, dst);
+    if (pin_to_pin.erase(std::make_pair(src, dst)) != 0) {
+        for (int i = 0; i < instances; i++) {
+            g->disconnect(src, dst);
+        }
     }
 }
 
 template <typename ValueType, typename TimeType>
 void Coupled<ValueType, TimeType>::assign_to_graph(Graph<ValueType, TimeType>* graph) {
     g = graph;
+    instances++;
     for (auto atomic : atomic_components) {
         g->add_atomic(atomic);
     }
@@ -558,6 +566,15 @@ void Coupled<ValueType, TimeType>::assign_to_graph(Graph<ValueType, TimeType>* g
     }
 }
 
+template <typename ValueType, typename TimeType>
+void Coupled<ValueType, TimeType>::forget_graph() {
+    g = nullptr;
+    instances = 0;
+    for (auto coupled : coupled_components) {
+        coupled->forget_graph();
+    }
+}
+
 template <typename ValueType, typename TimeType>
 void Coupled<ValueType, TimeType>::remove_from_graph() {
     for (auto atomic : atomic_components) {
@@ -572,21 +589,41 @@ void Coupled<ValueType, TimeType>::remove_from_graph() {
     for (auto coupled : coupled_components) {
         coupled->remove_from_graph();
     }
+    instances--;
+    if (instances == 0) {
+        // Later changes to this model do not affect the graph
+        g = nullptr;
+    }
 }
 
 template <typename ValueType, typename TimeType>
 void Coupled<ValueType, TimeType>::add_atomic(std::shared_ptr<Atomic<ValueType, TimeType>> model) {
-    atomic_components.insert(model);
-    if (g != nullptr) {
-        g->add_atomic(model);
+    if (atomic_components.insert(model).second) {
+        for (int i = 0; i < instances; i++) {
+            g->add_atomic(model);
+        }
     }
 }
 
 template <typename ValueType, typename TimeType>
 void Coupled<ValueType, TimeType>::remove_atomic(
     std::shared_ptr<Atomic<ValueType, TimeType>> model) {
-    atomic_components.erase(model);
-    if (g != nullptr) {
+    if (atomic_components.erase(model) == 0) {
+        return;
+    }
+    // Remove the connections to the model that are part of this coupled model
+    auto coupling = pin_to_atomic.begin();
+    while (coupling != pin_to_atomic.end()) {
+        if (coupling->second == model) {
+            for (int i = 0; i < instances; i++) {
+                g->disconnect(coupling->first, model);
+            }
+            coupling = pin_to_atomic.erase(coupling);
+        } else {
+            coupling++;
+        }
+    }
+    for (int i = 0; i < instances; i++) {
         g->remove_atomic(model);
     }
 }
@@ -594,18 +631,20 @@ void Coupled<ValueType, TimeType>::remove_atomic(
 template <typename ValueType, typename TimeType>
 void Coupled<ValueType, TimeType>::add_coupled_model(
     std::shared_ptr<Coupled<ValueType, TimeType>> model) {
-    coupled_components.insert(model);
-    if (g != nullptr) {
-        model->assign_to_graph(g);
+    if (coupled_components.insert(model).second) {
+        for (int i = 0; i < instances; i++) {
+            model->assign_to_graph(g);
+        }
     }
 }
 
 template <typename ValueType, typename TimeType>
 void Coupled<ValueType, TimeType>::remove_coupled_model(
     std::shared_ptr<Coupled<ValueType, TimeType>> model) {
-    coupled_components.erase(model);
-    if (g != nullptr) {
-        model->remove_from_graph();
+    if (coupled_components.erase(model) != 0) {
+        for (int i = 0; i < instances; i++) {
+            model->remove_from_graph();
+        }
     }
 }
 
diff --git a/include/adevs/simulator.h b/include/adevs/simulator.h
index 85dc7f3..9718273 100644
--- a/include/adevs/simulator.h
+++ b/include/adevs/simulator.h
@@ -422,6 +422,8 @@ void Simulator<ValueType, TimeType>::calculate_mealy_output(
 template <typename ValueType, typename TimeType>
 Simulator<ValueType, TimeType>::Simulator(std::shared_ptr<Coupled<ValueType, TimeType>> model)
     : graph(new Graph<ValueType, TimeType>()) {
+    // The model may have been part of an earlier simulation
+    model->forget_graph();
     model->assign_to_graph(graph.get());
     graph->set_provisional(true);
     for (auto atomic : graph->get_atomics()) {
-- 
2.43.0


From ae55fe8b7ed53ea289abd174d72006e7c0c47815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:35 +0000
Subject: [PATCH 07/18] fix: models can be simulated again after their
 simulator is destroyed

---
 include/adevs/simulator.h | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/include/adevs/simulator.h b/include/adevs/simulator.h
index 9718273..a02f65f 100644
--- a/include/adevs/simulator.h
+++ b/include/adevs/simulator.h
@@ -203,6 +203,12 @@ class Simulator {
      * @param model The Coupled model to simulate.
      */
     Simulator(std::shared_ptr<Coupled<ValueType, TimeType>> model);
+    /**
+     * @brief Destructor.
+     *
+     * The models can be used in another simulation afterwards.
+     */
+    ~Simulator();
 
     /**
      * @brief Get the time of the next event.
@@ -432,6 +438,17 @@ Simulator<ValueType, TimeType>::Simulator(std::shared_ptr<Coupled<ValueType, Tim
     tNext = sched.minPriority();
 }
 
+template <typename ValueType, typename TimeType>
+Simulator<ValueType, TimeType>::~Simulator() {
+    // Leave nothing of this simulation in the models
+    for (auto atomic : graph->get_atomics()) {
+        sched.schedule(atomic.get(), adevs_inf<TimeType>());
+        atomic->inputs.clear();
+        atomic->outputs.clear();
+        atomic->revisable_inputs.clear();
+    }
+}
+
 template <class ValueType, class TimeType>
 void Simulator<ValueType, TimeType>::computeNextOutput() {
     PinValue<ValueType> x;
-- 
2.43.0


From 0948dc6b65b2cbee0ae4efb166dca5c185cf66db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:02 +0000
Subject: [PATCH 08/18] fix: a state event that was overlooked is not flagged
 as a time event

---
 include/adevs/solvers/hybrid.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/adevs/solvers/hybrid.h b/include/adevs/solvers/hybrid.h
index 1534813..f874ebe 100644
--- a/include/adevs/solvers/hybrid.h
+++ b/include/adevs/solvers/hybrid.h
@@ -511,6 +511,8 @@ class Hybrid : public Atomic<ValueType, TimeType> {
             state_event_exists = event_finder->find_events(event, q, q_trial, solver, e);
             // We missed an event
             if (state_event_exists) {
+                // It is not due to a time event, which is still ahead
+                event[sys->numEvents()] = false;
                 output_func(missedOutput);
                 sys->confluent_event(q_trial, event, xb);
                 for (int i = 0; i < sys->numVars(); i++) {
-- 
2.43.0


From 5cd7f638371388a97551adf208b527cc0631bb6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:46 +0000
Subject: [PATCH 09/18] fix: an event that coincides with the late output of
 another is not lost or duplicated

---
 include/adevs/solvers/hybrid.h | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/include/adevs/solvers/hybrid.h b/include/adevs/solvers/hybrid.h
index f874ebe..ff49c51 100644
--- a/include/adevs/solvers/hybrid.h
+++ b/include/adevs/solvers/hybrid.h
@@ -476,7 +476,10 @@ class Hybrid : public Atomic<ValueType, TimeType> {
     void delta_int() {
         if (!missedOutput.empty()) {
             missedOutput.clear();
-            return;
+            // Done unless the next event is due now too
+            if (sigma > 0.0) {
+                return;
+            }
         }
         e_accum += ta();
         // Execute any discrete events
@@ -545,8 +548,13 @@ class Hybrid : public Atomic<ValueType, TimeType> {
     void delta_conf(std::list<adevs::PinValue<ValueType>> const &xb) {
         if (!missedOutput.empty()) {
             missedOutput.clear();
+            // No time has passed and the next event is still ahead
             if (sigma > 0.0) {
+                for (int i = 0; i < sys->numVars(); i++) {
+                    q_trial[i] = q[i];
+                }
                 event_exists = false;
+                sigma = 0.0;
             }
         }
         // Execute any discrete events
@@ -583,16 +591,15 @@ class Hybrid : public Atomic<ValueType, TimeType> {
             for (auto iter : missedOutput) {
                 yb.push_back(iter);
             }
-            if (sigma == 0.0) {  // Confluent event
-                sys->output_func(q_trial, event, yb);
-            }
-        } else {
-            // Let the model adjust algebraic variables, etc. for the new state
-            sys->postStep(q_trial);
-            if (event_exists) {
-                sys->output_func(q_trial, event, yb);
+            if (sigma > 0.0) {
+                return;
             }
         }
+        // Let the model adjust algebraic variables, etc. for the new state
+        sys->postStep(q_trial);
+        if (event_exists) {
+            sys->output_func(q_trial, event, yb);
+        }
     }
 
   private:
-- 
2.43.0


From 403b0e6ab839dce49d2b744e35a00fbb6d412fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:44 +0000
Subject: [PATCH 10/18] fix: a hybrid model deletes the objects it has adopted

---
 include/adevs/solvers/hybrid.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/adevs/solvers/hybrid.h b/include/adevs/solvers/hybrid.h
index ff49c51..bdb5d12 100644
--- a/include/adevs/solvers/hybrid.h
+++ b/include/adevs/solvers/hybrid.h
@@ -426,6 +426,16 @@ class Hybrid : public Atomic<ValueType, TimeType> {
         tentative_step();  // Take the first tentative step
     }
 
+    /// @brief Deletes the system, integrator, and event locator adopted by the constructor
+    ~Hybrid() {
+        delete[] q;
+        delete[] q_trial;
+        delete[] event;
+        delete event_finder;
+        delete solver;
+        delete sys;
+    }
+
     /**
      * @brief Get the value of the kth continuous state variable
      *
-- 
2.43.0


From c32c9e118016d2b47278b696b1f5b8a177ab558f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:44 +0000
Subject: [PATCH 11/18] fix: a hybrid model to which nothing has happened yet
 says so

---
 include/adevs/solvers/hybrid.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/adevs/solvers/hybrid.h b/include/adevs/solvers/hybrid.h
index bdb5d12..a58b0ee 100644
--- a/include/adevs/solvers/hybrid.h
+++ b/include/adevs/solvers/hybrid.h
@@ -419,6 +419,7 @@ class Hybrid : public Atomic<ValueType, TimeType> {
         q_trial = new double[sys->numVars()];
         event = new bool[sys->numEvents() + 1];
         event_exists = false;
+        event_happened = false;
         sys->init(q_trial);  // Get the initial state of the model
         for (int i = 0; i < sys->numVars(); i++) {
             q[i] = q_trial[i];
-- 
2.43.0


From d83ea981774686db3ded7598bad03f8010ebc781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:44 +0000
Subject: [PATCH 12/18] fix: the Runge-Kutta integrator releases its trial
 state

---
 include/adevs/solvers/rk_45.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/adevs/solvers/rk_45.h b/include/adevs/solvers/rk_45.h
index 5a362a6..c5f4a98 100644
--- a/include/adevs/solvers/rk_45.h
+++ b/include/adevs/solvers/rk_45.h
@@ -120,6 +120,7 @@ rk_45<ValueType>::rk_45(ode_system<ValueType>* sys, double err_tol, double h_max
 template <typename ValueType>
 rk_45<ValueType>::~rk_45() {
     delete[] dq;
+    delete[] qq;
     delete[] t;
     for (int i = 0; i < 6; i++) {
         delete[] k[i];
-- 
2.43.0


From 469a1363549d928fa93f66bbf736834dec8ab3db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:22 +0000
Subject: [PATCH 13/18] fix: fast event locator ends its search when the event
 is at the end of the step

---
 include/adevs/solvers/event_locators.h | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/include/adevs/solvers/event_locators.h b/include/adevs/solvers/event_locators.h
index cd8986b..13fc0b2 100644
--- a/include/adevs/solvers/event_locators.h
+++ b/include/adevs/solvers/event_locators.h
@@ -393,10 +393,22 @@ repeat:
     }
     // Event is between guess and high end of the bracket.
     else {
+        // The solver no longer crosses at the high end of the bracket?
+        // Then there is no event at or before that point.
+        if (hg >= hh) {
+            h = hh;
+            memset(events, 0, sizeof(bool) * N);
+            return false;
+        }
         hl = hg;
     }
-    // New guess is midpoint of low and high guesses
-    hg = (hh + hl) / 2.0;
+    // New guess is midpoint of low and high guesses. If the bracket is small
+    // enough, then finish at its high end which is where the sign change is.
+    if (!sign_change && hh - hl < err_tol) {
+        hg = hh;
+    } else {
+        hg = (hh + hl) / 2.0;
+    }
     // Calculate solution at new guess
     if (p != NULL) {
         p->interpolate(qend, hg);
-- 
2.43.0


From 3b1f7f5179b40f04337ee4914426884da3a7681e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:22 +0000
Subject: [PATCH 14/18] fix: fast event locator does not see a sign change when
 small event functions are multiplied

---
 include/adevs/solvers/event_locators.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/adevs/solvers/event_locators.h b/include/adevs/solvers/event_locators.h
index 13fc0b2..140153d 100644
--- a/include/adevs/solvers/event_locators.h
+++ b/include/adevs/solvers/event_locators.h
@@ -311,7 +311,10 @@ class fast_event_locator : public event_locator<ValueType> {
     spline* p;
 
     bool is_sign_change() const;
-    bool is_sign_change(int i) const { return z0[i] * zf[i] <= 0.0; }
+    bool is_sign_change(int i) const {
+        // The product of the two could underflow
+        return (z0[i] <= 0.0 && zf[i] >= 0.0) || (z0[i] >= 0.0 && zf[i] <= 0.0);
+    }
 };
 
 template <typename ValueType>
-- 
2.43.0


From 4d3fc6e03209e1280dc039848c93e138ed24da71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:56 +0000
Subject: [PATCH 15/18] fix: index-based schedule keeps track of the model that
 fills the place of a removed one

---
 include/adevs/schedule2.h | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/adevs/schedule2.h b/include/adevs/schedule2.h
index 68d0947..ace90d1 100644
--- a/include/adevs/schedule2.h
+++ b/include/adevs/schedule2.h
@@ -226,9 +226,16 @@ class Schedule {
         // Replace the index with the last element and then rebuild the heap.
         // Then remove the last element from the vector; don't need to keep the
         // initial element because it is being removed.
-        model_heap[index] = model_heap.back();
+        size_t last = model_heap.size() - 1;
+        if (index != last) {
+            model_heap[index] = model_heap[last];
+            model_index[model_heap[index].model] = index;
+        }
         model_heap.pop_back();
-        percolate_down(index);
+        // The element that was moved may belong above or below its new place
+        if (index != last) {
+            percolate_down(percolate_up(index));
+        }
     }
 
     // Restore the heap property by moving a model up the tree
-- 
2.43.0


From 245e5de15cd53d4897415d06f8a0e2fc1502a64d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:10 +0000
Subject: [PATCH 16/18] fix: FMU Jacobian has a row and column for time, whose
 derivative is constant

---
 include/adevs/solvers/fmi.h | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/include/adevs/solvers/fmi.h b/include/adevs/solvers/fmi.h
index 23976ab..bed67be 100644
--- a/include/adevs/solvers/fmi.h
+++ b/include/adevs/solvers/fmi.h
@@ -359,14 +359,13 @@ bool ModelExchange<ValueType>::get_jacobian(double const* q, double* J) {
     // API state_var and jac_col would be in reversed positions.
     for (fmi2_value_reference_t state_var = 0; state_var < N; state_var++) {
         status = fmi2_import_get_directional_derivative(fmu, &state_var, 1, jac_col, N, jac_v,
-                                                        J + state_var * N);
+                                                        J + state_var * (N + 1));
         assert(status == fmi2_status_ok);
     }
-    // Partial of time is 1 and nobody else depends on it. This, of course, may
-    // be wrong but FMU does not appear to support partials of f with respect to
-    // time. If you really need this, add dtau/dt = 1 to your equation set and use
-    // tau as your time variable.
-    J[(N + 1) * (N + 1) - 1] = 1.0;
+    // The derivative of time is constant and nobody else depends on time. This,
+    // of course, may be wrong but FMU does not appear to support partials of f with
+    // respect to time. If you really need this, add dtau/dt = 1 to your equation set
+    // and use tau as your time variable.
     return true;
 }
 
-- 
2.43.0


From c30336d869348c1c54c89873060804cd6835685c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:55 +0000
Subject: [PATCH 17/18] fix: FMU may be in event mode when a step ends for
 which its model was not evaluated

---
 include/adevs/solvers/fmi.h | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/include/adevs/solvers/fmi.h b/include/adevs/solvers/fmi.h
index bed67be..1512975 100644
--- a/include/adevs/solvers/fmi.h
+++ b/include/adevs/solvers/fmi.h
@@ -462,14 +462,19 @@ double ModelExchange<ValueType>::time_event_func(double const* q) {
 
 template <typename ValueType>
 void ModelExchange<ValueType>::postStep(double* q) {
-    assert(cont_time_mode);
+    fmi2_status_t status;
+    // The solver does not evaluate the model if it has nothing to do
+    if (!cont_time_mode) {
+        status = fmi2_import_enter_continuous_time_mode(fmu);
+        assert(status == fmi2_status_ok);
+        cont_time_mode = true;
+    }
     // Don't advance the FMU state by zero units of time
     // when in continuous mode
     if (q[this->numVars() - 1] <= t_now) {
         return;
     }
     // Try to complete the integration step
-    fmi2_status_t status;
     fmi2_boolean_t enterEventMode;
     fmi2_boolean_t terminateSimulation;
     t_now = q[this->numVars() - 1];
@@ -488,9 +493,14 @@ void ModelExchange<ValueType>::postStep(double* q) {
 
 template <typename ValueType>
 void ModelExchange<ValueType>::postTrialStep(double* q) {
-    assert(cont_time_mode);
-    // Restore values changed by der_func and state_event_func
     fmi2_status_t status;
+    // The solver does not evaluate the model if it has nothing to do
+    if (!cont_time_mode) {
+        status = fmi2_import_enter_continuous_time_mode(fmu);
+        assert(status == fmi2_status_ok);
+        cont_time_mode = true;
+    }
+    // Restore values changed by der_func and state_event_func
     status = fmi2_import_set_time(fmu, q[this->numVars() - 1]);
     assert(status == fmi2_status_ok);
     status = fmi2_import_set_continuous_states(fmu, q, this->numVars() - 1);
-- 
2.43.0


From 7fb98af56a92cdf4062f96c85b2a1e2522f13c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:11 +0000
Subject: [PATCH 18/18] fix: FMU wrapper reads and sets enumeration and string
 variables

---
 include/adevs/solvers/fmi.h | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/include/adevs/solvers/fmi.h b/include/adevs/solvers/fmi.h
index 1512975..8d3dfc2 100644
--- a/include/adevs/solvers/fmi.h
+++ b/include/adevs/solvers/fmi.h
@@ -205,7 +205,7 @@ std::any ModelExchange<ValueType>::get_variable(std::string name) {
         assert(status == fmi2_status_ok);
         return val;
     }
-    if (var_info.var_type == fmi2_base_type_int) {
+    if (var_info.var_type == fmi2_base_type_int || var_info.var_type == fmi2_base_type_enum) {
         fmi2_integer_t val;
         status = fmi2_import_get_integer(fmu, &var_info.ref, 1, &val);
         assert(status == fmi2_status_ok);
@@ -217,6 +217,12 @@ std::any ModelExchange<ValueType>::get_variable(std::string name) {
         assert(status == fmi2_status_ok);
         return val;
     }
+    if (var_info.var_type == fmi2_base_type_str) {
+        fmi2_string_t val;
+        status = fmi2_import_get_string(fmu, &var_info.ref, 1, &val);
+        assert(status == fmi2_status_ok);
+        return std::string(val);
+    }
     return 0;
 }
 
@@ -230,7 +236,7 @@ void ModelExchange<ValueType>::set_variable(std::string name, std::any value) {
         assert(status == fmi2_status_ok);
         return;
     }
-    if (var_info.var_type == fmi2_base_type_int) {
+    if (var_info.var_type == fmi2_base_type_int || var_info.var_type == fmi2_base_type_enum) {
         fmi2_integer_t val = std::any_cast<fmi2_integer_t>(value);
         status = fmi2_import_set_integer(fmu, &var_info.ref, 1, &val);
         assert(status == fmi2_status_ok);
@@ -240,6 +246,13 @@ void ModelExchange<ValueType>::set_variable(std::string name, std::any value) {
         fmi2_boolean_t val = std::any_cast<fmi2_boolean_t>(value);
         status = fmi2_import_set_boolean(fmu, &var_info.ref, 1, &val);
         assert(status == fmi2_status_ok);
+        return;
+    }
+    if (var_info.var_type == fmi2_base_type_str) {
+        std::string str = std::any_cast<std::string>(value);
+        fmi2_string_t val = str.c_str();
+        status = fmi2_import_set_string(fmu, &var_info.ref, 1, &val);
+        assert(status == fmi2_status_ok);
     }
 }
 
-- 
2.43.0

