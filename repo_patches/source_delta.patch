From 1d21e264af0c7080a03b0af36fe7c3b9bdc9ecc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:03 +0000
Subject: [PATCH 01/67] fix: assign thread_task ids in one atomic step so that
 they are unique

---
 threads/thread_task.cc | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/threads/thread_task.cc b/threads/thread_task.cc
index 2dbd9c7..fd4298b 100755
--- a/threads/thread_task.cc
+++ b/threads/thread_task.cc
@@ -7,7 +7,6 @@
 #include <usml/threads/thread_task.h>
 
 #include <iostream>
-#include <limits>
 
 using namespace usml::threads;
 using namespace std;
@@ -23,12 +22,7 @@ std::atomic<std::size_t> thread_task::_num_active = 0;
  */
 thread_task::thread_task() {
     _abort = false;
-    _id = _id_next;
-    if (_id_next == std::numeric_limits<std::size_t>::max()) {
-        _id_next = 0;
-    } else {
-        ++_id_next;
-    }
+    _id = _id_next++;
     ++_num_active;
 }
 
-- 
2.43.0


From e192222142b0ead3f7fdda797e121bb49410f214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:03 +0000
Subject: [PATCH 02/67] fix: make thread_task abort and done flags atomic

---
 threads/thread_task.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/threads/thread_task.h b/threads/thread_task.h
index 5bf92ca..927e552 100755
--- a/threads/thread_task.h
+++ b/threads/thread_task.h
@@ -121,10 +121,10 @@ class USML_DECLSPEC thread_task {
 
    protected:
     /// Indication that task needs to abort.
-    bool _abort;
+    std::atomic<bool> _abort;
 
     /// Set to true when this task complete.
-    bool _done{false};
+    std::atomic<bool> _done{false};
 
    private:
     /**
-- 
2.43.0


From 2c08f8edc6161a734168ea25e965ca49a8663bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:03 +0000
Subject: [PATCH 03/67] fix: stop counting tasks discarded by thread_pool
 shutdown as active

---
 threads/thread_pool.cc |  7 +++++++
 threads/thread_task.cc |  2 +-
 threads/thread_task.h  | 18 ++++++++++++++++--
 3 files changed, 24 insertions(+), 3 deletions(-)

diff --git a/threads/thread_pool.cc b/threads/thread_pool.cc
index 21278a7..0e3e10b 100644
--- a/threads/thread_pool.cc
+++ b/threads/thread_pool.cc
@@ -64,6 +64,13 @@ thread_pool::~thread_pool() {
     for (auto& thread : _thread_list) {
         thread.join();
     }
+
+    // tasks that were never started are no longer active
+
+    while (!_task_queue.empty()) {
+        _task_queue.front()->release();
+        _task_queue.pop();
+    }
 }
 
 /**
diff --git a/threads/thread_task.cc b/threads/thread_task.cc
index fd4298b..b53def4 100755
--- a/threads/thread_task.cc
+++ b/threads/thread_task.cc
@@ -38,5 +38,5 @@ void thread_task::start() {
         cerr << "Uncaught exception in thread_task" << endl;
     }
     // After run is completed decrement number of active tasks counter.
-    --_num_active;
+    release();
 }
diff --git a/threads/thread_task.h b/threads/thread_task.h
index 927e552..0019d20 100755
--- a/threads/thread_task.h
+++ b/threads/thread_task.h
@@ -59,9 +59,10 @@ class USML_DECLSPEC thread_task {
     thread_task();
 
     /**
-     * Virtual destructor.
+     * Virtual destructor. Tasks that are discarded without ever being run
+     * stop being counted as active.
      */
-    virtual ~thread_task() {}
+    virtual ~thread_task() { release(); }
 
     /**
      * Automatically assigned identification number for this task.
@@ -134,6 +135,19 @@ class USML_DECLSPEC thread_task {
      */
     void start();
 
+    /**
+     * Decrements the number of active tasks the first time that it is called
+     * for this task, and does nothing after that.
+     */
+    void release() {
+        if (!_released.exchange(true)) {
+            --_num_active;
+        }
+    }
+
+    /// True once this task no longer counts as an active task.
+    std::atomic<bool> _released{false};
+
     /// Next identification number to be assigned to a task.
     static std::atomic<std::size_t> _id_next;
 
-- 
2.43.0


From d1295933ce097b0a2d98bdec770b1240f4925a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:04 +0000
Subject: [PATCH 04/67] fix: do not hold the task queue lock while joining
 worker threads

---
 threads/thread_pool.cc | 1 -
 1 file changed, 1 deletion(-)

diff --git a/threads/thread_pool.cc b/threads/thread_pool.cc
index 0e3e10b..bcc68c3 100644
--- a/threads/thread_pool.cc
+++ b/threads/thread_pool.cc
@@ -59,7 +59,6 @@ thread_pool::thread_pool(unsigned num_threads) {
  * Stop the scheduler and terminate the threads used to execute tasks.
  */
 thread_pool::~thread_pool() {
-    write_lock_guard guard(_task_mutex);
     this->_running = false;
     for (auto& thread : _thread_list) {
         thread.join();
-- 
2.43.0


From ba2b78b8998ce9d3eceedd052a0df58de8402e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:04 +0000
Subject: [PATCH 05/67] fix: lock every access to the thread_controller
 singleton

---
 threads/thread_controller.cc | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/threads/thread_controller.cc b/threads/thread_controller.cc
index 41067cf..f067b04 100644
--- a/threads/thread_controller.cc
+++ b/threads/thread_controller.cc
@@ -25,14 +25,11 @@ read_write_lock thread_controller::_instance_mutex;
  * Constructs the object on the first time that this method is called.
  */
 thread_pool* thread_controller::instance() {
+    write_lock_guard guard(_instance_mutex);
     thread_pool* pool = _instance.get();
     if (pool == nullptr) {
-        write_lock_guard guard(_instance_mutex);
-        pool = _instance.get();
-        if (pool == nullptr) {
-            pool = new thread_pool(_num_threads);
-            _instance.reset(pool);
-        }
+        pool = new thread_pool(_num_threads);
+        _instance.reset(pool);
     }
     return pool;
 }
@@ -41,8 +38,12 @@ thread_pool* thread_controller::instance() {
  * Reset the thread_controller to empty.
  */
 void thread_controller::reset(unsigned num_threads) {
+    // the old pool joins its workers when it goes out of scope, after the lock
+    // has been released, because those workers may be waiting for instance()
+    std::unique_ptr<thread_pool> old_pool;
     write_lock_guard guard(_instance_mutex);
     _num_threads = num_threads;
     auto* pool = new thread_pool(_num_threads);
+    old_pool.swap(_instance);
     _instance.reset(pool);
 }
-- 
2.43.0


From 2b9b640a0303cb2459cc7d7abcfb35b0a9a7543c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:04 +0000
Subject: [PATCH 06/67] fix: lock every access to the platform_manager
 singleton

---
 platforms/platform_manager.cc | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/platforms/platform_manager.cc b/platforms/platform_manager.cc
index ed4c93d..1ca5e36 100755
--- a/platforms/platform_manager.cc
+++ b/platforms/platform_manager.cc
@@ -19,15 +19,12 @@ read_write_lock platform_manager::_mutex;
  * Singleton constructor, implemented using double-checked locking pattern.
  */
 platform_manager* platform_manager::instance() {
+    write_lock_guard guard(_mutex);
     platform_manager* manager = _instance.get();
     if (manager == nullptr) {
-        write_lock_guard guard(_mutex);
-        manager = _instance.get();
-        if (manager == nullptr) {
-            manager = new platform_manager();
-            manager->_max_key = 0;
-            _instance.reset(manager);
-        }
+        manager = new platform_manager();
+        manager->_max_key = 0;
+        _instance.reset(manager);
     }
     return manager;
 }
-- 
2.43.0


From e99ae2323d66f99d4b0b65281f8b5fd49e8088c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:32 +0000
Subject: [PATCH 07/67] fix: use separate locks for the sensor_manager
 singleton, frequencies and sensor lists

---
 sensors/sensor_manager.cc | 35 ++++++++++++++++++++---------------
 sensors/sensor_manager.h  |  8 +++++++-
 2 files changed, 27 insertions(+), 16 deletions(-)

diff --git a/sensors/sensor_manager.cc b/sensors/sensor_manager.cc
index 0c2415b..6bceec8 100644
--- a/sensors/sensor_manager.cc
+++ b/sensors/sensor_manager.cc
@@ -24,27 +24,31 @@ std::unique_ptr<sensor_manager> sensor_manager::_instance;
 read_write_lock sensor_manager::_mutex;
 
 /**
- * Singleton Constructor - Double Check Locking Pattern DCLP
+ * The _instance_mutex for the singleton sensor_manager.
+ */
+read_write_lock sensor_manager::_instance_mutex;
+
+/**
+ * Singleton Constructor
  */
 sensor_manager* sensor_manager::instance() {
-    sensor_manager* tmp = _instance.get();
-    if (tmp == nullptr) {
-        write_lock_guard guard(_mutex);
-        tmp = _instance.get();
-        if (tmp == nullptr) {
-            tmp = new sensor_manager();
-            _instance.reset(tmp);
-        }
+    write_lock_guard guard(_instance_mutex);
+    if (_instance == nullptr) {
+        _instance.reset(new sensor_manager());
     }
-    return tmp;
+    return _instance.get();
 }
 
 /**
  * Reset the sensor_manager instance to empty.
  */
 void sensor_manager::reset() {
-    write_lock_guard guard(_mutex);
-    _instance.reset();
+    std::unique_ptr<sensor_manager> old;
+    {
+        write_lock_guard guard(_instance_mutex);
+        old.swap(_instance);
+    }
+    old.reset();
     usml::platforms::platform_manager::reset();
 }
 
@@ -52,7 +56,7 @@ void sensor_manager::reset() {
  * Frequencies over which propagation is computed (Hz).
  */
 seq_vector::csptr sensor_manager::frequencies() const {
-    read_lock_guard guard(_mutex);
+    read_lock_guard guard(_frequencies_mutex);
     return _frequencies;
 }
 
@@ -60,7 +64,7 @@ seq_vector::csptr sensor_manager::frequencies() const {
  * Frequencies over which propagation is computed (Hz).
  */
 void sensor_manager::frequencies(const seq_vector::csptr& freq) {
-    write_lock_guard guard(_mutex);
+    write_lock_guard guard(_frequencies_mutex);
     _frequencies = freq;
 }
 
@@ -70,7 +74,8 @@ void sensor_manager::frequencies(const seq_vector::csptr& freq) {
 void sensor_manager::add_sensor(const sensor_model::sptr& sensor,
                                 update_listener<sensor_pair>* listener) {
     write_lock_guard guard(_mutex);
-    if (_frequencies == nullptr || _frequencies->size() < 1) {
+    const seq_vector::csptr freq = frequencies();
+    if (freq == nullptr || freq->size() < 1) {
         throw freq_missing();
     }
     if (sensor->time_maximum() == 0.0) {
diff --git a/sensors/sensor_manager.h b/sensors/sensor_manager.h
index df69ebc..f85258b 100644
--- a/sensors/sensor_manager.h
+++ b/sensors/sensor_manager.h
@@ -197,9 +197,15 @@ class USML_DECLSPEC sensor_manager : public manager_template<sensor_pair> {
      */
     static std::unique_ptr<sensor_manager> _instance;
 
-    /// Mutex for singleton access.
+    /// Mutex for the lists of active sources and receivers.
     static read_write_lock _mutex;
 
+    /// Mutex for singleton access.
+    static read_write_lock _instance_mutex;
+
+    /// Mutex for the frequencies, which are needed while sensors are locked.
+    mutable read_write_lock _frequencies_mutex;
+
     /// Frequencies over which propagation is computed (Hz).
     seq_vector::csptr _frequencies;
 
-- 
2.43.0


From 31eb5e847b00ede875a5e8875c57691939887b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:32 +0000
Subject: [PATCH 08/67] fix: lock the listener sets of update_notifier and
 wavefront_notifier

---
 managed/update_notifier.h     | 17 +++++++++++++++--
 wavegen/wavefront_notifier.cc |  9 ++++++++-
 wavegen/wavefront_notifier.h  |  6 ++++++
 3 files changed, 29 insertions(+), 3 deletions(-)

diff --git a/managed/update_notifier.h b/managed/update_notifier.h
index 63d48e9..ee95c22 100755
--- a/managed/update_notifier.h
+++ b/managed/update_notifier.h
@@ -5,6 +5,7 @@
 #pragma once
 
 #include <usml/managed/update_listener.h>
+#include <usml/threads/read_write_lock.h>
 #include <usml/usml_config.h>
 
 #include <set>
@@ -32,12 +33,16 @@ class USML_DECLSPEC update_notifier {
     /**
      * Add an update listener to this object.
      */
-    void add_listener(listener_type* listener) { _listeners.insert(listener); }
+    void add_listener(listener_type* listener) {
+        usml::threads::write_lock_guard guard(_listeners_mutex);
+        _listeners.insert(listener);
+    }
 
     /**
      * Remove an update listener to this object.
      */
     void remove_listener(listener_type* listener) {
+        usml::threads::write_lock_guard guard(_listeners_mutex);
         _listeners.erase(listener);
     }
 
@@ -47,12 +52,20 @@ class USML_DECLSPEC update_notifier {
      * @param object    Reference to the object that has been updated.
      */
     virtual void notify_update(const obj_type* object) const {
-        for (auto listener : _listeners) {
+        std::set<listener_type*> listeners;
+        {
+            usml::threads::read_lock_guard guard(_listeners_mutex);
+            listeners = _listeners;
+        }
+        for (auto listener : listeners) {
             listener->notify_update(object);
         }
     }
 
    private:
+    /// Mutex for the list of listeners, never held while they are notified.
+    mutable usml::threads::read_write_lock _listeners_mutex;
+
     /// List of active managed listeners.
     std::set<listener_type*> _listeners;
 };
diff --git a/wavegen/wavefront_notifier.cc b/wavegen/wavefront_notifier.cc
index 7c69b83..b46ed39 100644
--- a/wavegen/wavefront_notifier.cc
+++ b/wavegen/wavefront_notifier.cc
@@ -13,6 +13,7 @@ using namespace usml::wavegen;
  * Add an wavefront listener to this object.
  */
 void wavefront_notifier::add_wavefront_listener(wavefront_listener* listener) {
+    usml::threads::write_lock_guard guard(_listeners_mutex);
     _listeners.insert(listener);
 }
 
@@ -21,6 +22,7 @@ void wavefront_notifier::add_wavefront_listener(wavefront_listener* listener) {
  */
 void wavefront_notifier::remove_wavefront_listener(
     wavefront_listener* listener) {
+    usml::threads::write_lock_guard guard(_listeners_mutex);
     _listeners.erase(listener);
 }
 
@@ -30,7 +32,12 @@ void wavefront_notifier::remove_wavefront_listener(
 void wavefront_notifier::notify_wavefront_listeners(
     const sensor_model* sensor, const eigenray_collection::csptr& eigenrays,
     const eigenverb_collection::csptr& eigenverbs) {
-    for (wavefront_listener* listener : _listeners) {
+    std::set<wavefront_listener*> listeners;
+    {
+        usml::threads::read_lock_guard guard(_listeners_mutex);
+        listeners = _listeners;
+    }
+    for (wavefront_listener* listener : listeners) {
         listener->update_wavefront_data(sensor, eigenrays, eigenverbs);
     }
 }
diff --git a/wavegen/wavefront_notifier.h b/wavegen/wavefront_notifier.h
index a51d185..61c6fd7 100644
--- a/wavegen/wavefront_notifier.h
+++ b/wavegen/wavefront_notifier.h
@@ -6,6 +6,7 @@
 
 #include <usml/eigenrays/eigenray_collection.h>
 #include <usml/eigenverbs/eigenverb_collection.h>
+#include <usml/threads/read_write_lock.h>
 #include <usml/usml_config.h>
 #include <usml/wavegen/wavefront_listener.h>
 
@@ -42,6 +43,11 @@ class USML_DECLSPEC wavefront_notifier {
         const eigenverb_collection::csptr& eigenverbs);
 
    private:
+    /**
+     * Mutex for the list of listeners, never held while they are notified.
+     */
+    usml::threads::read_write_lock _listeners_mutex;
+
     /**
      * List of active wavefront listeners.
      */
-- 
2.43.0


From 996665fdf2398ecd11dd23729cfef365ce133725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:32 +0000
Subject: [PATCH 09/67] fix: lock every access to the sensor_model state

---
 sensors/sensor_model.cc |  17 ++++-
 sensors/sensor_model.h  | 134 +++++++++++++++++++++++++++++++---------
 2 files changed, 120 insertions(+), 31 deletions(-)

diff --git a/sensors/sensor_model.cc b/sensors/sensor_model.cc
index 7edf8ce..88578b0 100644
--- a/sensors/sensor_model.cc
+++ b/sensors/sensor_model.cc
@@ -25,7 +25,10 @@ using namespace usml::sensors;
 /**
  * Reset source beams.
  */
-void sensor_model::reset_src_beams() { _src_beams.clear(); }
+void sensor_model::reset_src_beams() {
+    write_lock_guard guard(mutex());
+    _src_beams.clear();
+}
 
 /**
  * Add source beam pattern to this sensor.
@@ -64,7 +67,11 @@ std::list<int> sensor_model::src_keys() const {
 /**
  * Reset receiver beams.
  */
-void sensor_model::reset_rcv_beams() { _rcv_beams.clear(); }
+void sensor_model::reset_rcv_beams() {
+    write_lock_guard guard(mutex());
+    _rcv_beams.clear();
+    _rcv_steering.clear();
+}
 
 /**
  * Add receiver beam pattern to this sensor.
@@ -95,8 +102,12 @@ bp_model::csptr sensor_model::rcv_beam(int keyID) const {
  */
 bvector sensor_model::rcv_steering(int keyID) const {
     read_lock_guard guard(mutex());
+    bvector steering(1.0, 0.0, 0.0);
     auto iter = _rcv_steering.find(keyID);
-    return iter->second;
+    if (iter != _rcv_steering.end()) {
+        steering = iter->second;
+    }
+    return steering;
 }
 
 /**
diff --git a/sensors/sensor_model.h b/sensors/sensor_model.h
index 5b3b6e9..4bb8e28 100644
--- a/sensors/sensor_model.h
+++ b/sensors/sensor_model.h
@@ -101,94 +101,166 @@ class USML_DECLSPEC sensor_model : public platform_model,
         : platform_model(keyID, description, time, pos, orient, speed) {}
 
     /// Minimum range to find valid targets (m).
-    double min_range() const { return _min_range; }
+    double min_range() const {
+        read_lock_guard guard(mutex());
+        return _min_range;
+    }
 
     /// Minimum range to find valid targets (m).
-    void min_range(double value) { _min_range = value; }
+    void min_range(double value) {
+        write_lock_guard guard(mutex());
+        _min_range = value;
+    }
 
     /// Maximum range to find valid targets (m).  Set to zero for infinite
     /// range.
-    double max_range() const { return _max_range; }
+    double max_range() const {
+        read_lock_guard guard(mutex());
+        return _max_range;
+    }
 
     /// Maximum range to find valid targets (m).  Set to zero for infinite
     /// range.
-    void max_range(double value) { _max_range = value; }
+    void max_range(double value) {
+        write_lock_guard guard(mutex());
+        _max_range = value;
+    }
 
     /// List of depression/elevation angles to use in wavefront calculation.
-    seq_vector::csptr de_fan() const { return _de_fan; }
+    seq_vector::csptr de_fan() const {
+        read_lock_guard guard(mutex());
+        return _de_fan;
+    }
 
     /// List of depression/elevation angles to use in wavefront calculation.
-    void de_fan(seq_vector::csptr value) { _de_fan = value; }
+    void de_fan(seq_vector::csptr value) {
+        write_lock_guard guard(mutex());
+        _de_fan = value;
+    }
 
     /// List of azimuthal angles  to use in wavefront calculation.
-    seq_vector::csptr az_fan() const { return _az_fan; }
+    seq_vector::csptr az_fan() const {
+        read_lock_guard guard(mutex());
+        return _az_fan;
+    }
 
     /// List of azimuthal angles  to use in wavefront calculation.
-    void az_fan(seq_vector::csptr value) { _az_fan = value; }
+    void az_fan(seq_vector::csptr value) {
+        write_lock_guard guard(mutex());
+        _az_fan = value;
+    }
 
     /// Time step between wavefronts (sec).
-    double time_step() const { return _time_step; }
+    double time_step() const {
+        read_lock_guard guard(mutex());
+        return _time_step;
+    }
 
     /// Time step between wavefronts (sec).
-    void time_step(double value) { _time_step = value; }
+    void time_step(double value) {
+        write_lock_guard guard(mutex());
+        _time_step = value;
+    }
 
     /// Maximum time to propagate wavefront (sec).
-    double time_minimum() const { return _time_minimum; }
+    double time_minimum() const {
+        read_lock_guard guard(mutex());
+        return _time_minimum;
+    }
 
     /// Maximum time to propagate wavefront (sec).
-    void time_minimum(double value) { _time_minimum = value; }
+    void time_minimum(double value) {
+        write_lock_guard guard(mutex());
+        _time_minimum = value;
+    }
 
     /// Maximum time to propagate wavefront (sec).
-    double time_maximum() const { return _time_maximum; }
+    double time_maximum() const {
+        read_lock_guard guard(mutex());
+        return _time_maximum;
+    }
 
     /// Maximum time to propagate wavefront (sec).
-    void time_maximum(double value) { _time_maximum = value; }
+    void time_maximum(double value) {
+        write_lock_guard guard(mutex());
+        _time_maximum = value;
+    }
 
     /**
      * The value of the intensity threshold in dB. Any eigenray or eigenverb
      * with an intensity value that are weaker than this threshold is not sent
      * the listeners.
      */
-    double intensity_threshold() const { return _intensity_threshold; }
+    double intensity_threshold() const {
+        read_lock_guard guard(mutex());
+        return _intensity_threshold;
+    }
 
     /// The value of the intensity threshold in dB.
-    void intensity_threshold(double value) { _intensity_threshold = value; }
+    void intensity_threshold(double value) {
+        write_lock_guard guard(mutex());
+        _intensity_threshold = value;
+    }
 
     /**
      * The maximum number of bottom bounces.
      * Any eigenray or eigenverb with more than this number
      * of bottom bounces is not sent the listeners.
      */
-    int max_bottom() const { return _max_bottom; }
+    int max_bottom() const {
+        read_lock_guard guard(mutex());
+        return _max_bottom;
+    }
 
     /// The maximum number of bottom bounces.
-    void max_bottom(int value) { _max_bottom = value; }
+    void max_bottom(int value) {
+        write_lock_guard guard(mutex());
+        _max_bottom = value;
+    }
 
     /**
      * The maximum number of surface bounces.
      * Any eigenray or eigenverb with more than this number
      * of surface bounces is not sent the listeners.
      */
-    int max_surface() const { return _max_surface; }
+    int max_surface() const {
+        read_lock_guard guard(mutex());
+        return _max_surface;
+    }
 
     /// The maximum number of surface bounces.
-    void max_surface(int value) { _max_surface = value; }
+    void max_surface(int value) {
+        write_lock_guard guard(mutex());
+        _max_surface = value;
+    }
 
     /// True if eigenverbs computed for this sensor.
-    bool compute_reverb() const { return _compute_reverb; }
+    bool compute_reverb() const {
+        read_lock_guard guard(mutex());
+        return _compute_reverb;
+    }
 
     /// True if eigenverbs computed for this sensor.
-    void compute_reverb(bool value) { _compute_reverb = value; }
+    void compute_reverb(bool value) {
+        write_lock_guard guard(mutex());
+        _compute_reverb = value;
+    }
 
     /**
      * Multi-static group for this sensor (0=none). The sensor_manager
      * automatically creates bistatic pairs for sources and receivers in the
      * same multistatic group.
      */
-    uint64_t multistatic() const { return _multistatic; }
+    uint64_t multistatic() const {
+        read_lock_guard guard(mutex());
+        return _multistatic;
+    }
 
     /// Multi-static group for this sensor (0=none).
-    void multistatic(uint64_t value) { _multistatic = value; }
+    void multistatic(uint64_t value) {
+        write_lock_guard guard(mutex());
+        _multistatic = value;
+    }
 
     /// Reset source beams.
     void reset_src_beams();
@@ -262,22 +334,28 @@ class USML_DECLSPEC sensor_model : public platform_model,
                            update_type_enum update_type = NO_UPDATE);
 
     /// Reference to currently executing wavefront generator.
-    std::shared_ptr<wavefront_generator>& wavefront_task() {
+    std::shared_ptr<wavefront_generator> wavefront_task() const {
+        read_lock_guard guard(mutex());
         return _wavefront_task;
     }
 
     /// NetCDF file in which to store wavefront data for debugging.
     std::string wavefront_file() const {
-    	return _wavefront_file;
+        read_lock_guard guard(mutex());
+        return _wavefront_file;
     }
 
     /// NetCDF file in which to store wavefront data for debugging.
     void wavefront_file(const std::string& filename ) {
-    	_wavefront_file = filename;
+        write_lock_guard guard(mutex());
+        _wavefront_file = filename;
     }
 
     /// Force wavefront calculation on next update.
-    void set_needs_update() { _needs_update = true; }
+    void set_needs_update() {
+        write_lock_guard guard(mutex());
+        _needs_update = true;
+    }
 
    protected:
     /**
-- 
2.43.0


From b6980e8b063cfe8b8eac061351f206d21ee5e372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:32 +0000
Subject: [PATCH 10/67] fix: lock motion parameters and make flags of
 platform_model atomic

---
 platforms/platform_model.cc | 11 +++++++----
 platforms/platform_model.h  | 29 +++++++++++++++++++++++------
 2 files changed, 30 insertions(+), 10 deletions(-)

diff --git a/platforms/platform_model.cc b/platforms/platform_model.cc
index cd26d47..5f1af0d 100644
--- a/platforms/platform_model.cc
+++ b/platforms/platform_model.cc
@@ -113,10 +113,13 @@ void platform_model::update_internals(time_t time, const wposition1& pos,
                                       update_type_enum update_type) {
     // update motion of host
 
-    _time = time;
-    _position = pos;
-    _orient = orient;
-    _speed = speed;
+    {
+        write_lock_guard guard(_motion_mutex);
+        _time = time;
+        _position = pos;
+        _orient = orient;
+        _speed = speed;
+    }
 
     // update motion of children
 
diff --git a/platforms/platform_model.h b/platforms/platform_model.h
index 7a084db..b71a6da 100644
--- a/platforms/platform_model.h
+++ b/platforms/platform_model.h
@@ -13,6 +13,7 @@
 #include <usml/types/orientation.h>
 #include <usml/types/wposition1.h>
 
+#include <atomic>
 #include <list>
 #include <string>
 
@@ -79,16 +80,28 @@ class platform_model : public managed_obj<uint64_t, platform_model>,
     const platform_model* host() const { return _host; }
 
     /// Time of last update.
-    time_t time() const { return _time; }
+    time_t time() const {
+        read_lock_guard guard(_motion_mutex);
+        return _time;
+    }
 
     /// Location of the platform in world coordinates.
-    wposition1 position() const { return _position; }
+    wposition1 position() const {
+        read_lock_guard guard(_motion_mutex);
+        return _position;
+    }
 
     /// Orientation of the platform in world coordinates.
-    orientation orient() const { return _orient; }
+    orientation orient() const {
+        read_lock_guard guard(_motion_mutex);
+        return _orient;
+    }
 
     /// Platform speed in world coordinates (m/s).
-    double speed() const { return _speed; }
+    double speed() const {
+        read_lock_guard guard(_motion_mutex);
+        return _speed;
+    }
 
     /// Flag to disable platform as acoustic target
     bool is_acoustic_target() const { return _is_acoustic_target; }
@@ -212,11 +225,15 @@ class platform_model : public managed_obj<uint64_t, platform_model>,
     /// Mutex to that locks object during changes.
     mutable read_write_lock _mutex;
 
+    /// Mutex for the motion parameters. Nested inside of the object's mutex, so
+    /// that motion can be read while this or other platforms are locked.
+    mutable read_write_lock _motion_mutex;
+
     /// Container for location and orientation of platforms on platform.
     manager_template<linkage> _child_manager;
 
     /// Platform that controls the motion of this platform.
-    const platform_model* _host{nullptr};
+    std::atomic<const platform_model*> _host{nullptr};
 
     /// Time of last update.
     time_t _time{0};
@@ -231,7 +248,7 @@ class platform_model : public managed_obj<uint64_t, platform_model>,
     double _speed{0.0};
 
     /// Flag to disable platform as acoustic target
-    bool _is_acoustic_target{true};
+    std::atomic<bool> _is_acoustic_target{true};
 };
 
 /// @}
-- 
2.43.0


From 9d79db5de912ef5ee00775f45d7b52643d96e782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:32 +0000
Subject: [PATCH 11/67] fix: clear host of platform_model when it is detached

---
 platforms/platform_model.cc | 13 +++++++++++++
 platforms/platform_model.h  |  2 +-
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/platforms/platform_model.cc b/platforms/platform_model.cc
index 5f1af0d..6811952 100644
--- a/platforms/platform_model.cc
+++ b/platforms/platform_model.cc
@@ -13,6 +13,15 @@
 
 using namespace usml::platforms;
 
+/**
+ * Detach all of the children from this host.
+ */
+platform_model::~platform_model() {
+    for (const auto& link : _child_manager.list()) {
+        link->child->_host = nullptr;
+    }
+}
+
 /**
  * Get all of the motion parameters, locked by a common mutex.
  */
@@ -88,6 +97,10 @@ platform_model::key_type platform_model::add_child(
  */
 bool platform_model::remove_child(platform_model::key_type keyID) {
     write_lock_guard guard(mutex());
+    const linkage::sptr link = _child_manager.find(keyID);
+    if (link != nullptr) {
+        link->child->_host = nullptr;
+    }
     return _child_manager.remove(keyID);
 }
 
diff --git a/platforms/platform_model.h b/platforms/platform_model.h
index b71a6da..a5e5365 100644
--- a/platforms/platform_model.h
+++ b/platforms/platform_model.h
@@ -71,7 +71,7 @@ class platform_model : public managed_obj<uint64_t, platform_model>,
           _speed(speed) {}
 
     /// Virtual destructor
-    virtual ~platform_model() {}
+    virtual ~platform_model();
 
     /// Mutex to that locks object during changes.
     read_write_lock& mutex() const { return _mutex; }
-- 
2.43.0


From 377838e020e38dc416d69eb4969ffd12cd2917ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:32 +0000
Subject: [PATCH 12/67] fix: skip sensors no longer in platform_manager when
 pairing

---
 sensors/sensor_manager.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sensors/sensor_manager.cc b/sensors/sensor_manager.cc
index 6bceec8..ce2563b 100644
--- a/sensors/sensor_manager.cc
+++ b/sensors/sensor_manager.cc
@@ -206,7 +206,8 @@ void sensor_manager::add_multistatic_source(
     for (auto receiverID : _rcv_list) {
         if (sourceID != receiverID) {
             auto receiver = find_sensor(receiverID);
-            if (receiver->multistatic() == multistatic) {
+            if (receiver != nullptr &&
+                receiver->multistatic() == multistatic) {
                 sensor_pair::sptr pair(new sensor_pair(source, receiver));
                 if (listener != nullptr) {
                     pair->add_listener(listener);
@@ -228,7 +229,7 @@ void sensor_manager::add_multistatic_receiver(
     for (auto sourceID : _src_list) {
         if (sourceID != receiverID) {
             auto source = find_sensor(sourceID);
-            if (source->multistatic() == multistatic) {
+            if (source != nullptr && source->multistatic() == multistatic) {
                 sensor_pair::sptr pair(new sensor_pair(source, receiver));
                 if (listener != nullptr) {
                     pair->add_listener(listener);
-- 
2.43.0


From dbf4c0e3b9c3455cb5c290fa934c7e9dd17db610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:32 +0000
Subject: [PATCH 13/67] fix: remove the bistatic pairs of a receiver with every
 source

---
 sensors/sensor_manager.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sensors/sensor_manager.cc b/sensors/sensor_manager.cc
index ce2563b..c042fb0 100644
--- a/sensors/sensor_manager.cc
+++ b/sensors/sensor_manager.cc
@@ -288,7 +288,7 @@ void sensor_manager::remove_multistatic_receiver(
     const sensor_model::sptr& receiver,
     update_listener<sensor_pair>* listener) {
     auto receiverID = receiver->keyID();
-    for (auto sourceID : _rcv_list) {
+    for (auto sourceID : _src_list) {
         if (sourceID != receiverID) {
             auto source = platform_manager::instance()->find(sourceID);
             auto hash_key =
-- 
2.43.0


From 67a3e803b4c520f659c28046b5c1db94e8beb79e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:32 +0000
Subject: [PATCH 14/67] fix: keep background tasks of sensor_pair abortable
 after they are launched

---
 sensors/sensor_pair.cc | 22 ++++++++++++----------
 sensors/sensor_pair.h  |  4 ++--
 2 files changed, 14 insertions(+), 12 deletions(-)

diff --git a/sensors/sensor_pair.cc b/sensors/sensor_pair.cc
index c7cd34f..f3eff35 100644
--- a/sensors/sensor_pair.cc
+++ b/sensors/sensor_pair.cc
@@ -137,17 +137,18 @@ void sensor_pair::update_wavefront_data(
             // launch a new bistatic eigenverb generator background task
 
             if (_src_eigenverbs != nullptr && _rcv_eigenverbs != nullptr) {
-                if (_biverb_task != nullptr) {  // abort incomplete tasks
-                    _biverb_task->abort();
+                auto old_task = _biverb_task.lock();
+                if (old_task != nullptr) {  // abort incomplete tasks
+                    old_task->abort();
                 }
                 sensor_pair::sptr reference =
                     sensor_manager::instance()->find(keyID());
                 eigenverb_collection::csptr src_verbs = _src_eigenverbs;
                 eigenverb_collection::csptr rcv_verbs = _rcv_eigenverbs;
-                _biverb_task = std::make_shared<biverb_generator>(
+                auto new_task = std::make_shared<biverb_generator>(
                     reference, src_verbs, rcv_verbs);
-                thread_controller::instance()->run(_biverb_task);
-                _biverb_task.reset();  // destroy background task shared pointer
+                _biverb_task = new_task;
+                thread_controller::instance()->run(new_task);
             }
         }
     }
@@ -185,14 +186,15 @@ void sensor_pair::notify_update(const biverb_collection::csptr* object) {
         // launch a new reverberation time series generator background task
 
         notify_early = false;
-        if (_rvbts_task != nullptr) {  // abort incomplete tasks
-            _rvbts_task->abort();
+        auto old_task = _rvbts_task.lock();
+        if (old_task != nullptr) {  // abort incomplete tasks
+            old_task->abort();
         }
         sensor_pair::sptr reference = sensor_manager::instance()->find(keyID());
-        _rvbts_task = std::make_shared<rvbts_generator>(
+        auto new_task = std::make_shared<rvbts_generator>(
             reference, _source, _receiver, treverb, _biverbs);
-        thread_controller::instance()->run(_rvbts_task);
-        _rvbts_task.reset();  // destroy background task shared pointer
+        _rvbts_task = new_task;
+        thread_controller::instance()->run(new_task);
     }
     if (notify_early) {
         notify_update(this);
diff --git a/sensors/sensor_pair.h b/sensors/sensor_pair.h
index 0674a08..60ed5cc 100755
--- a/sensors/sensor_pair.h
+++ b/sensors/sensor_pair.h
@@ -242,10 +242,10 @@ class USML_DECLSPEC sensor_pair
     rvbts_collection::csptr _rvbts;
 
     /// Background task used to generate biverb objects.
-    std::shared_ptr<biverb_generator> _biverb_task;
+    std::weak_ptr<biverb_generator> _biverb_task;
 
     /// Background task used to generate reverberation time series objects.
-    std::shared_ptr<rvbts_generator> _rvbts_task;
+    std::weak_ptr<rvbts_generator> _rvbts_task;
 };
 
 typedef std::list<sensor_pair::sptr> pair_list;
-- 
2.43.0


From 7d65ba3fbf952faad65473aeb564902366db28b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:32 +0000
Subject: [PATCH 15/67] fix: launch no background task for a sensor_pair that
 has been removed

---
 sensors/sensor_pair.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sensors/sensor_pair.cc b/sensors/sensor_pair.cc
index f3eff35..1bbad15 100644
--- a/sensors/sensor_pair.cc
+++ b/sensors/sensor_pair.cc
@@ -143,6 +143,9 @@ void sensor_pair::update_wavefront_data(
                 }
                 sensor_pair::sptr reference =
                     sensor_manager::instance()->find(keyID());
+                if (reference == nullptr) {  // pair has been removed
+                    return;
+                }
                 eigenverb_collection::csptr src_verbs = _src_eigenverbs;
                 eigenverb_collection::csptr rcv_verbs = _rcv_eigenverbs;
                 auto new_task = std::make_shared<biverb_generator>(
@@ -191,6 +194,9 @@ void sensor_pair::notify_update(const biverb_collection::csptr* object) {
             old_task->abort();
         }
         sensor_pair::sptr reference = sensor_manager::instance()->find(keyID());
+        if (reference == nullptr) {  // pair has been removed
+            return;
+        }
         auto new_task = std::make_shared<rvbts_generator>(
             reference, _source, _receiver, treverb, _biverbs);
         _rvbts_task = new_task;
-- 
2.43.0


From be04ef5161083068cfa3c6c05e5aa9bfc4d215c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:32 +0000
Subject: [PATCH 16/67] fix: do not launch rvbts_generator before bistatic
 eigenverbs exist

---
 sensors/sensor_model.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sensors/sensor_model.cc b/sensors/sensor_model.cc
index 88578b0..a15e552 100644
--- a/sensors/sensor_model.cc
+++ b/sensors/sensor_model.cc
@@ -149,7 +149,9 @@ void sensor_model::transmit_schedule(const transmit_list& schedule,
         sensor_manager* sensor_mgr = sensor_manager::instance();
         for (const sensor_pair::sptr& pair : sensor_mgr->find_source(keyID())) {
             biverb_collection::csptr biverbs = pair->biverbs();
-            pair->notify_update(&biverbs);
+            if (biverbs != nullptr) {
+                pair->notify_update(&biverbs);
+            }
         }
     }
 }
-- 
2.43.0


From f655b112e78fc8b1f571211e015115396204b3ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:30 +0000
Subject: [PATCH 17/67] fix: lock eigenverb and biverb collections while their
 size is read

---
 biverbs/biverb_collection.h       | 1 +
 eigenverbs/eigenverb_collection.h | 1 +
 2 files changed, 2 insertions(+)

diff --git a/biverbs/biverb_collection.h b/biverbs/biverb_collection.h
index 5d90be7..ae4da05 100644
--- a/biverbs/biverb_collection.h
+++ b/biverbs/biverb_collection.h
@@ -72,6 +72,7 @@ class USML_DECLSPEC biverb_collection {
      *                  this number.
      */
     size_t size(size_t interface) const {
+        read_lock_guard guard(_mutex);
         return _collection[interface].size();
     }
 
diff --git a/eigenverbs/eigenverb_collection.h b/eigenverbs/eigenverb_collection.h
index 1a2be57..552b4d1 100644
--- a/eigenverbs/eigenverb_collection.h
+++ b/eigenverbs/eigenverb_collection.h
@@ -84,6 +84,7 @@ class USML_DECLSPEC eigenverb_collection : public eigenverb_listener {
      * @param interface Interface number of the desired list of eigenverbs.
      */
     size_t size(size_t interface) const {
+        read_lock_guard guard(_mutex);
         return _collection[interface].size();
     }
 
-- 
2.43.0


From f5419ec1cec743f74c39ea35319702ccf71fdcb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:30 +0000
Subject: [PATCH 18/67] fix: do not lock biverb_collection twice in
 write_netcdf

---
 biverbs/biverb_collection.cc | 1 -
 1 file changed, 1 deletion(-)

diff --git a/biverbs/biverb_collection.cc b/biverbs/biverb_collection.cc
index 6d19cc9..43a403d 100644
--- a/biverbs/biverb_collection.cc
+++ b/biverbs/biverb_collection.cc
@@ -193,7 +193,6 @@ void biverb_collection::add_biverb(const eigenverb_model::csptr& src_verb,
  */
 void biverb_collection::write_netcdf(const char* filename,
                                      size_t interface) const {
-    read_lock_guard guard(_mutex);
     netCDF::NcFile nc_file(filename, netCDF::NcFile::replace);
 
     switch (interface) {
-- 
2.43.0


From 632b83bac173b71acf49130cb4c2f28c9dcb63a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:30 +0000
Subject: [PATCH 19/67] fix: read eigenverbs using the names under which they
 are written

---
 eigenverbs/eigenverb_collection.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/eigenverbs/eigenverb_collection.cc b/eigenverbs/eigenverb_collection.cc
index 62f6c67..fab7da9 100644
--- a/eigenverbs/eigenverb_collection.cc
+++ b/eigenverbs/eigenverb_collection.cc
@@ -246,13 +246,13 @@ void eigenverb_collection::read_netcdf(const char* filename, size_t interface) {
 
     netCDF::NcDim eigenverb_dim = nc_file.getDim("eigenverbs");
     size_t num_eigenverbs = eigenverb_dim.getSize();
-    netCDF::NcDim freq_dim = nc_file.getDim("frequency");
+    netCDF::NcDim freq_dim = nc_file.getDim("frequencies");
     size_t num_freq = freq_dim.getSize();
 
     // variables
 
     netCDF::NcVar time_var = nc_file.getVar("travel_time");
-    netCDF::NcVar freq_var = nc_file.getVar("frequency");
+    netCDF::NcVar freq_var = nc_file.getVar("frequencies");
     netCDF::NcVar power_var = nc_file.getVar("power");
     netCDF::NcVar length_var = nc_file.getVar("length");
     netCDF::NcVar width_var = nc_file.getVar("width");
@@ -260,7 +260,7 @@ void eigenverb_collection::read_netcdf(const char* filename, size_t interface) {
     netCDF::NcVar lng_var = nc_file.getVar("longitude");
     netCDF::NcVar alt_var = nc_file.getVar("altitude");
     netCDF::NcVar direction_var = nc_file.getVar("direction");
-    netCDF::NcVar grazing_var = nc_file.getVar("grazing_angle");
+    netCDF::NcVar grazing_var = nc_file.getVar("grazing");
     netCDF::NcVar sound_speed_var = nc_file.getVar("sound_speed");
     netCDF::NcVar de_index_var = nc_file.getVar("de_index");
     netCDF::NcVar az_index_var = nc_file.getVar("az_index");
-- 
2.43.0


From 7a9d276afa0317165ce7ba95509b3de50e40f942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:30 +0000
Subject: [PATCH 20/67] fix: write_netcdf for an interface without eigenverbs

---
 eigenverbs/eigenverb_collection.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eigenverbs/eigenverb_collection.cc b/eigenverbs/eigenverb_collection.cc
index fab7da9..c2b5dff 100644
--- a/eigenverbs/eigenverb_collection.cc
+++ b/eigenverbs/eigenverb_collection.cc
@@ -99,7 +99,6 @@ void eigenverb_collection::write_netcdf(const char* filename,
                                         size_t interface) const {
     netCDF::NcFile nc_file(filename, netCDF::NcFile::replace);
     eigenverb_list list = eigenverbs(interface);
-    size_t num_freq = list.begin()->get()->frequencies->size();
 
     switch (interface) {
         case eigenverb_model::BOTTOM:
@@ -132,6 +131,7 @@ void eigenverb_collection::write_netcdf(const char* filename,
         // clang-format off
         // dimensions
 
+        size_t num_freq = list.begin()->get()->frequencies->size();
         netCDF::NcDim eigenverb_dim = nc_file.addDim("eigenverbs", list.size());
         netCDF::NcDim freq_dim = nc_file.addDim("frequencies", num_freq);
         const std::vector<netCDF::NcDim> verb_freq_dims{eigenverb_dim, freq_dim};
-- 
2.43.0


From 6bb515be76794b3b1c4861e88771779f44647a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:42 +0000
Subject: [PATCH 21/67] fix: release memory when work is abandoned, discarded
 or fails

---
 biverbs/biverb_collection.cc       |  4 +--
 biverbs/biverb_generator.cc        |  4 +--
 eigenrays/eigenray_collection.cc   |  4 +--
 eigenverbs/eigenverb_collection.cc | 16 ++++-----
 ocean/ascii_profile.cc             | 10 +++---
 ocean/reflect_loss_netcdf.cc       | 54 +++++++++++++-----------------
 sensors/sensor_pair.cc             |  8 ++---
 types/data_grid_svp.h              |  1 +
 wavegen/wavefront_generator.cc     | 17 +++++-----
 waveq3d/wave_queue.cc              |  5 +--
 10 files changed, 57 insertions(+), 66 deletions(-)

diff --git a/biverbs/biverb_collection.cc b/biverbs/biverb_collection.cc
index 43a403d..eb14379 100644
--- a/biverbs/biverb_collection.cc
+++ b/biverbs/biverb_collection.cc
@@ -91,7 +91,7 @@ void biverb_collection::add_biverb(const eigenverb_model::csptr& src_verb,
 #endif
     // copy data from source and receiver eigenverbs
 
-    auto* biverb = new biverb_model();
+    auto biverb = std::make_shared<biverb_model>();
     biverb->travel_time = src_verb->travel_time + rcv_verb->travel_time;
     biverb->frequencies = rcv_verb->frequencies;
     biverb->de_index = rcv_verb->de_index;
@@ -182,7 +182,7 @@ void biverb_collection::add_biverb(const eigenverb_model::csptr& src_verb,
 
     // add to collection
 
-    auto verb = biverb_model::csptr(biverb);
+    biverb_model::csptr verb = biverb;
     if (norm_inf(biverb->power) >= power_threshold) {
         _collection[interface].insert({verb->travel_time, verb});
     }
diff --git a/biverbs/biverb_generator.cc b/biverbs/biverb_generator.cc
index 03a8bad..3935d0f 100644
--- a/biverbs/biverb_generator.cc
+++ b/biverbs/biverb_generator.cc
@@ -51,7 +51,7 @@ void biverb_generator::run() {
     auto freq = sensor_manager::instance()->frequencies();
     const size_t num_freq = freq->size();
     vector<double> scatter(num_freq, 0.0);
-    auto* collection = new biverb_collection(ocean->num_volume());
+    auto collection = std::make_shared<biverb_collection>(ocean->num_volume());
 
     // loop through eigenverbs for each interface
 
@@ -75,7 +75,7 @@ void biverb_generator::run() {
             }
         }
     }
-    _collection = biverb_collection::csptr(collection);
+    _collection = collection;
     _done = true;
     notify_update(&_collection);
     cout << "task #" << id() << " biverb_generator: done" << endl;
diff --git a/eigenrays/eigenray_collection.cc b/eigenrays/eigenray_collection.cc
index 0f2ec9a..cc0dad5 100644
--- a/eigenrays/eigenray_collection.cc
+++ b/eigenrays/eigenray_collection.cc
@@ -401,7 +401,7 @@ eigenray_list eigenray_collection::dead_reckon_one(
 
     eigenray_list new_list;
     for (const auto &ray : eigenrays) {
-        auto *new_ray = new eigenray_model(*ray);
+        auto new_ray = std::make_shared<eigenray_model>(*ray);
 
         // compute ray direction in local tangent plane
 
@@ -441,7 +441,7 @@ eigenray_list eigenray_collection::dead_reckon_one(
             profile->attenuation(position, ray->frequencies, distance, &atten);
             new_ray->intensity[f] = 20.0 * log10(r2) + atten(0, 0)[f] + offset;
         }
-        new_list.push_back(eigenray_model::csptr(new_ray));
+        new_list.push_back(new_ray);
     }
     return new_list;
 }
diff --git a/eigenverbs/eigenverb_collection.cc b/eigenverbs/eigenverb_collection.cc
index c2b5dff..7ee47e4 100644
--- a/eigenverbs/eigenverb_collection.cc
+++ b/eigenverbs/eigenverb_collection.cc
@@ -274,10 +274,9 @@ void eigenverb_collection::read_netcdf(const char* filename, size_t interface) {
 
     // get frequencies just once
 
-    auto* freq_data = new double[num_freq];
-    freq_var.getVar(freq_data);
-    seq_vector::csptr frequencies(new seq_data(freq_data, num_freq));
-    delete[] freq_data;
+    std::vector<double> freq_data(num_freq);
+    freq_var.getVar(freq_data.data());
+    seq_vector::csptr frequencies(new seq_data(freq_data.data(), num_freq));
 
     // read each record
 
@@ -289,9 +288,9 @@ void eigenverb_collection::read_netcdf(const char* filename, size_t interface) {
     rec_freq_count[0] = 1;
     rec_freq_count[1] = num_freq;
 
-    auto* power = new double[num_freq];
+    std::vector<double> power(num_freq);
     for (size_t record = 0; record < num_eigenverbs; ++record) {
-        auto* verb = new eigenverb_model();
+        auto verb = std::make_shared<eigenverb_model>();
         verb->power.resize(num_freq, true);
         index[0] = record;
         rec_freq_index[0] = record;
@@ -304,7 +303,7 @@ void eigenverb_collection::read_netcdf(const char* filename, size_t interface) {
         verb->travel_time = v;
         verb->frequencies = frequencies;
 
-        power_var.getVar(rec_freq_index, rec_freq_count, power);
+        power_var.getVar(rec_freq_index, rec_freq_count, power.data());
         for (size_t n = 0; n < num_freq; ++n) {
             verb->power[n] = pow(10.0, power[n] / 10.0);
         }
@@ -329,7 +328,6 @@ void eigenverb_collection::read_netcdf(const char* filename, size_t interface) {
         lower_var.getVar(index, &i);        verb->lower = int(i);
         // clang-format on
 
-        add_eigenverb(eigenverb_model::csptr(verb), interface);
+        add_eigenverb(verb, interface);
     }
-    delete[] power;
 }
diff --git a/ocean/ascii_profile.cc b/ocean/ascii_profile.cc
index 88c8ad0..217248e 100644
--- a/ocean/ascii_profile.cc
+++ b/ocean/ascii_profile.cc
@@ -14,6 +14,7 @@
 #include <iostream>
 #include <memory>
 #include <string>
+#include <vector>
 
 using namespace usml::ocean;
 
@@ -35,8 +36,8 @@ ascii_profile::ascii_profile(const char *filename) {
     // read data from input file
 
     double depth;
-    auto *height = new double[size];
-    auto *speed = new double[size];
+    std::vector<double> height(size);
+    auto speed = std::shared_ptr<double[]>(new double[size]);
     int c;
     for (size_t n = 0; n < size; ++n) {
         infile >> depth;
@@ -53,9 +54,8 @@ ascii_profile::ascii_profile(const char *filename) {
 
     // load into data_grid variables
 
-    this->_axis[0] = seq_vector::csptr(new seq_data(height, size));
-    this->_data = std::shared_ptr<const double[]>(speed);
-    delete[] height;
+    this->_axis[0] = seq_vector::csptr(new seq_data(height.data(), size));
+    this->_data = speed;
 
     // set interp type and edge limit
 
diff --git a/ocean/reflect_loss_netcdf.cc b/ocean/reflect_loss_netcdf.cc
index 9bf4e8f..5a1cefb 100644
--- a/ocean/reflect_loss_netcdf.cc
+++ b/ocean/reflect_loss_netcdf.cc
@@ -45,37 +45,37 @@ reflect_loss_netcdf::reflect_loss_netcdf(const char* filename) {
 
     // extracts the data for all of the variables from the netcdf file
 
-    auto* latitude = new double[latdim];
-    auto* longitude = new double[londim];
-    auto* type_num = new double[latdim * londim];
-    auto* speed = new double[n_types];
-    auto* density = new double[n_types];
-    auto* atten = new double[n_types];
-    auto* shearspd = new double[n_types];
-    auto* shearatten = new double[n_types];
-
-    lat.getVar(latitude);
-    lon.getVar(longitude);
-    bot_num.getVar(type_num);
-    bot_speed.getVar(speed);
-    bot_density.getVar(density);
-    bot_atten.getVar(atten);
-    bot_shear_speed.getVar(shearspd);
-    bot_shear_atten.getVar(shearatten);
+    std::vector<double> latitude(latdim);
+    std::vector<double> longitude(londim);
+    std::vector<double> type_num(latdim * londim);
+    std::vector<double> speed(n_types);
+    std::vector<double> density(n_types);
+    std::vector<double> atten(n_types);
+    std::vector<double> shearspd(n_types);
+    std::vector<double> shearatten(n_types);
+
+    lat.getVar(latitude.data());
+    lon.getVar(longitude.data());
+    bot_num.getVar(type_num.data());
+    bot_speed.getVar(speed.data());
+    bot_density.getVar(density.data());
+    bot_atten.getVar(atten.data());
+    bot_shear_speed.getVar(shearspd.data());
+    bot_shear_atten.getVar(shearatten.data());
 
     // creates a sequence vector of axes that are passed to data grid
 
     seq_vector::csptr axis[2];
     double latinc = (latitude[latdim - 1] - latitude[0]) / double(latdim);
     double loninc = (longitude[londim - 1] - longitude[0]) / double(londim);
-    auto* seq_lat = new seq_linear(latitude[0], latinc, int(latdim));
-    auto* seq_lon = new seq_linear(longitude[0], loninc, int(londim));
-    axis[0] = seq_vector::csptr(seq_lat);
-    axis[1] = seq_vector::csptr(seq_lon);
+    axis[0] = seq_vector::csptr(
+        new seq_linear(latitude[0], latinc, int(latdim)));
+    axis[1] = seq_vector::csptr(
+        new seq_linear(longitude[0], loninc, int(londim)));
 
     // creates a data grid and populates the data from the netcdf file
 
-    auto* grid = new gen_grid<2>(axis);
+    auto grid = std::make_shared<gen_grid<2> >(axis);
     size_t index[2];
     for (int i = 0; i < latdim; i++) {
         for (int j = 0; j < londim; j++) {
@@ -84,7 +84,7 @@ reflect_loss_netcdf::reflect_loss_netcdf(const char* filename) {
             grid->setdata(index, type_num[i * londim + j]);
         }
     }
-    _bottom_grid = data_grid<2>::csptr(grid);
+    _bottom_grid = grid;
 
     // set the interpolation type to the nearest neighbor and restrict extrap
 
@@ -101,14 +101,6 @@ reflect_loss_netcdf::reflect_loss_netcdf(const char* filename) {
         _loss_model.push_back(reflect_loss_model::csptr(model));
     }
 
-    delete[] latitude;
-    delete[] longitude;
-    delete[] speed;
-    delete[] density;
-    delete[] atten;
-    delete[] shearspd;
-    delete[] shearatten;
-    delete[] type_num;
 }
 
 /**
diff --git a/sensors/sensor_pair.cc b/sensors/sensor_pair.cc
index 1bbad15..5edfae6 100644
--- a/sensors/sensor_pair.cc
+++ b/sensors/sensor_pair.cc
@@ -98,10 +98,10 @@ void sensor_pair::update_wavefront_data(
             receiver_pos = _source->position();
             eigenray_list new_list;
             for (const auto& ray : eigenrays->find_eigenrays(targetID)) {
-                auto* copy = new eigenray_model(*ray);
+                auto copy = std::make_shared<eigenray_model>(*ray);
                 std::swap(copy->source_de, copy->target_de);
                 std::swap(copy->source_az, copy->target_az);
-                new_list.push_back(eigenray_model::csptr(copy));
+                new_list.push_back(copy);
             }
             raylist = new_list;  // replace original list
         }
@@ -111,7 +111,7 @@ void sensor_pair::update_wavefront_data(
         matrix<uint64_t> receiverID(1, 1);
         receiverID(0, 0) = targetID;
 
-        auto* collection = new eigenray_collection(
+        auto collection = std::make_shared<eigenray_collection>(
             eigenrays->frequencies(), _source->position(),
             wposition(receiver_pos), sourceID, receiverID,
             eigenrays->coherent());
@@ -119,7 +119,7 @@ void sensor_pair::update_wavefront_data(
             collection->add_eigenray(0, 0, ray);
         }
         collection->sum_eigenrays();
-        _dirpaths = eigenray_collection::csptr(collection);
+        _dirpaths = collection;
 
         // update eigenverb contributions
 
diff --git a/types/data_grid_svp.h b/types/data_grid_svp.h
index 2a52be3..fd70758 100755
--- a/types/data_grid_svp.h
+++ b/types/data_grid_svp.h
@@ -139,6 +139,7 @@ class USML_DECLSPEC data_grid_svp : public gen_grid<3> {
             }
             delete[] _derv_z[i];
         }
+        delete[] _derv_z;
     }
 
     /**
diff --git a/wavegen/wavefront_generator.cc b/wavegen/wavefront_generator.cc
index ba0f041..916c348 100755
--- a/wavegen/wavefront_generator.cc
+++ b/wavegen/wavefront_generator.cc
@@ -71,18 +71,19 @@ void wavefront_generator::run() {
 
     // create listener to store eigenrays, if targets exist
 
-    auto* eigenrays = new eigenray_collection(_frequencies, _source_position,
-                                              _target_positions,
-                                              _source->keyID(), _targetIDs);
+    auto eigenrays = std::make_shared<eigenray_collection>(
+        _frequencies, _source_position, _target_positions, _source->keyID(),
+        _targetIDs);
     if (_targetIDs.size1() > 0 && _targetIDs.size2() > 0) {
-        wave.add_eigenray_listener(eigenrays);
+        wave.add_eigenray_listener(eigenrays.get());
     }
 
     // create listener to store eigenverbs
 
-    auto* eigenverbs = new eigenverb_collection(_ocean->num_volume());
+    auto eigenverbs =
+        std::make_shared<eigenverb_collection>(_ocean->num_volume());
     if (_source->compute_reverb()) {
-        wave.add_eigenverb_listener(eigenverbs);
+        wave.add_eigenverb_listener(eigenverbs.get());
     }
 
     // propagate wavefront to build eigenrays and eigenverbs
@@ -120,8 +121,6 @@ void wavefront_generator::run() {
     // distribute eigenrays and eigenverbs to listeners
 
     _done = true;
-    _source->notify_wavefront_listeners(
-        _source, eigenray_collection::csptr(eigenrays),
-        eigenverb_collection::csptr(eigenverbs));
+    _source->notify_wavefront_listeners(_source, eigenrays, eigenverbs);
     cout << "task #" << id() << " wavefront_generator: done" << endl;
 }
diff --git a/waveq3d/wave_queue.cc b/waveq3d/wave_queue.cc
index eb36bcf..321dd49 100755
--- a/waveq3d/wave_queue.cc
+++ b/waveq3d/wave_queue.cc
@@ -13,6 +13,7 @@
 #include <boost/numeric/ublas/triangular.hpp>
 #include <boost/numeric/ublas/vector_proxy.hpp>
 #include <cmath>
+#include <memory>
 #include <iomanip>
 #include <utility>
 
@@ -1109,7 +1110,7 @@ void wave_queue::build_eigenverb(size_t de, size_t az, double dt,
     }
     const double sin_grazing = sin(grazing);
 
-    auto* verb = new eigenverb_model();
+    auto verb = std::make_shared<eigenverb_model>();
     verb->length = 0.5 * path_length * de_delta / sin_grazing;
     verb->width = 0.5 * path_length * az_delta;
 
@@ -1160,5 +1161,5 @@ void wave_queue::build_eigenverb(size_t de, size_t az, double dt,
          << "\tsurface=" << verb->surface << " bottom=" << verb->bottom
          << " caustic=" << verb->caustic << endl;
 #endif
-    notify_eigenverb_listeners(eigenverb_model::csptr(verb), type);
+    notify_eigenverb_listeners(verb, type);
 }
-- 
2.43.0


From 5a9f4b8753bfd0bb7629d336530853c13a30a799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:42 +0000
Subject: [PATCH 22/67] fix: test every spreading intensity for NaN before
 building an eigenray

---
 waveq3d/wave_queue.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/waveq3d/wave_queue.cc b/waveq3d/wave_queue.cc
index 321dd49..7190bbc 100755
--- a/waveq3d/wave_queue.cc
+++ b/waveq3d/wave_queue.cc
@@ -583,7 +583,7 @@ void wave_queue::build_eigenray(size_t t1, size_t t2, size_t de, size_t az,
 
     const vector<double> spread_intensity = _spreading_model->intensity(
         wposition1(*(_curr->targets), t1, t2), de, az, offset, distance);
-    for (size_t i = 0; i < ray->intensity.size(); ++i) {
+    for (size_t i = 0; i < spread_intensity.size(); ++i) {
         if (std::isnan(spread_intensity(i))) {
             #ifdef USML_DEBUG
                 std::cerr << "warning: wave_queue::build_eigenray()" << endl
-- 
2.43.0


From 564061292cd4a8b9df681e5ec34bc516e563bc1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:42 +0000
Subject: [PATCH 23/67] fix: update the intermediate wavefront of the
 Runge-Kutta step after reflection

---
 waveq3d/reflection_model.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/waveq3d/reflection_model.cc b/waveq3d/reflection_model.cc
index 79c5310..911b77a 100644
--- a/waveq3d/reflection_model.cc
+++ b/waveq3d/reflection_model.cc
@@ -312,7 +312,7 @@ void reflection_model::reflection_reinit(size_t de, size_t az,
 
     ode_integ::rk2_pos(-time_step, &prev, &next, &temp);
     ode_integ::rk2_ndir(-time_step, &prev, &next, &temp);
-    past.update();
+    temp.update();
 
     ode_integ::rk3_pos(-time_step, &prev, &next, &temp, &past);
     ode_integ::rk3_ndir(-time_step, &prev, &next, &temp, &past);
-- 
2.43.0


From 8c3a725547e296766244848d8b2f4259f4819759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:42 +0000
Subject: [PATCH 24/67] fix: read ascii_arc_bathy labels into storage of their
 own

---
 ocean/ascii_arc_bathy.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ocean/ascii_arc_bathy.cc b/ocean/ascii_arc_bathy.cc
index 438a937..5049bfa 100644
--- a/ocean/ascii_arc_bathy.cc
+++ b/ocean/ascii_arc_bathy.cc
@@ -13,6 +13,7 @@
 #include <fstream>
 #include <iostream>
 #include <memory>
+#include <string>
 
 using namespace usml::ocean;
 using namespace usml::types;
@@ -27,7 +28,7 @@ ascii_arc_bathy::ascii_arc_bathy(const char* filename) {
     double yllcorner;
     double cellsize;
     double nodata_value;
-    static char label[80];
+    std::string label;
     const auto R = (double)wposition::earth_radius;
 
     std::ifstream fi(filename);
-- 
2.43.0


From f884e76eabe32e03a3ce35676130277f4a472a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:42 +0000
Subject: [PATCH 25/67] fix: endless recursion in the reverse iterators of
 seq_vector

---
 types/seq_vector.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/types/seq_vector.h b/types/seq_vector.h
index ad4442a..c7f6eff 100644
--- a/types/seq_vector.h
+++ b/types/seq_vector.h
@@ -171,14 +171,14 @@ class USML_DECLSPEC seq_vector : public vector_container<seq_vector> {
      * Return reverse iterator to end of sequence.
      */
     const_reverse_iterator rbegin() const {
-        return const_reverse_iterator(rbegin());
+        return const_reverse_iterator(end());
     }
 
     /**
      * Return reverse iterator to start of sequence.
      */
     const_reverse_iterator rend() const {
-        return const_reverse_iterator(rend());
+        return const_reverse_iterator(begin());
     }
 
     /**
-- 
2.43.0


From b10f432e4de30557462bb24cb8fc4f06b4d1be99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:42 +0000
Subject: [PATCH 26/67] fix: find_nearest reading past the end of a sequence

---
 types/seq_vector.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/types/seq_vector.cc b/types/seq_vector.cc
index 8b7e5ed..82ba071 100755
--- a/types/seq_vector.cc
+++ b/types/seq_vector.cc
@@ -22,7 +22,7 @@ using namespace usml::types;
  */
 seq_vector::size_type seq_vector::find_nearest(value_type value) const {
     size_type n = find_index(value);
-    if (abs(_data[n + 1] - value) <= abs(_data[n] - value)) {
+    if (n < _max_index && abs(_data[n + 1] - value) <= abs(_data[n] - value)) {
         n = n + 1;
     }
     return n;
-- 
2.43.0


From e6642cdb30868edcc975418dd3ddacddc8fd6c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:42 +0000
Subject: [PATCH 27/67] fix: rvbts_collection indexing beyond its frequencies
 and receiver channels

---
 rvbts/rvbts_collection.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/rvbts/rvbts_collection.cc b/rvbts/rvbts_collection.cc
index 9f56918..d6ad758 100644
--- a/rvbts/rvbts_collection.cc
+++ b/rvbts/rvbts_collection.cc
@@ -79,7 +79,7 @@ void rvbts_collection::add_biverb(const biverb_model::csptr &verb,
         double freq = transmit->fcenter;
         const seq_vector &axis = *(verb->frequencies);
         size_t index = axis.find_nearest(freq);
-        if (index >= axis.size()) {
+        if (index >= axis.size() - 1) {
             --index;
         }
         double u = (freq - axis[index]) / axis.increment(index);
@@ -102,7 +102,10 @@ void rvbts_collection::add_biverb(const biverb_model::csptr &verb,
 
     // add Gaussian to each receiver channel
 
+    size_t channel = 0;
     for (int rcv : this->_receiver->rcv_keys()) {
+        const size_t row = channel++;
+
         // compute received level for this transmission
 
         bp_model::csptr rcv_beam = _receiver->rcv_beam(rcv);
@@ -119,7 +122,7 @@ void rvbts_collection::add_biverb(const biverb_model::csptr &verb,
 
         for (size_t n = 0; n < gaussian.size(); ++n) {
             auto t = n + first;
-            _time_series(rcv, t) += rcv_level * gaussian[n];
+            _time_series(row, t) += rcv_level * gaussian[n];
         }
     }
 }
-- 
2.43.0


From f75173c34d57d3af10fc9f2e72ac5dc766627f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:39 +0000
Subject: [PATCH 28/67] fix: ignore transmissions whose source or receiver beam
 does not exist

---
 rvbts/rvbts_collection.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/rvbts/rvbts_collection.cc b/rvbts/rvbts_collection.cc
index d6ad758..6801d3d 100644
--- a/rvbts/rvbts_collection.cc
+++ b/rvbts/rvbts_collection.cc
@@ -89,6 +89,9 @@ void rvbts_collection::add_biverb(const biverb_model::csptr &verb,
     // compute source level for this transmission
 
     bp_model::csptr src_beam = _source->src_beam(transmit->transmit_mode);
+    if (src_beam == nullptr) {
+        return;  // source has no beam pattern for this transmit mode
+    }
     const seq_vector::csptr frequencies(
         new seq_linear(transmit->fcenter, 1.0, 1));
     vector<double> level(1);
@@ -109,6 +112,9 @@ void rvbts_collection::add_biverb(const biverb_model::csptr &verb,
         // compute received level for this transmission
 
         bp_model::csptr rcv_beam = _receiver->rcv_beam(rcv);
+        if (rcv_beam == nullptr) {
+            continue;  // beam pattern removed since the keys were listed
+        }
         bvector rcv_arrival(verb->receiver_de, verb->receiver_az);
         rcv_arrival.rotate(_receiver_orient, rcv_arrival);
         bvector rcv_steering = _receiver->rcv_steering(rcv);
-- 
2.43.0


From 114559054dbe0ae9d8c5669adab0b35e788fb523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:42 +0000
Subject: [PATCH 29/67] fix: label swapped direct paths of sensor_pair with the
 matching source position

---
 sensors/sensor_pair.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sensors/sensor_pair.cc b/sensors/sensor_pair.cc
index 5edfae6..9f8d41b 100644
--- a/sensors/sensor_pair.cc
+++ b/sensors/sensor_pair.cc
@@ -112,7 +112,7 @@ void sensor_pair::update_wavefront_data(
         receiverID(0, 0) = targetID;
 
         auto collection = std::make_shared<eigenray_collection>(
-            eigenrays->frequencies(), _source->position(),
+            eigenrays->frequencies(), source_pos,
             wposition(receiver_pos), sourceID, receiverID,
             eigenrays->coherent());
         for (const auto& ray : raylist) {
-- 
2.43.0


From 5a6bb5ba3a524b928173055ad93b2c177489bebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:50 +0000
Subject: [PATCH 30/67] fix: notify sensor_pair listeners when bistatic
 eigenverbs are the last result

---
 sensors/sensor_pair.cc | 55 +++++++++++++++++++++---------------------
 1 file changed, 27 insertions(+), 28 deletions(-)

diff --git a/sensors/sensor_pair.cc b/sensors/sensor_pair.cc
index 9f8d41b..b0a39f5 100644
--- a/sensors/sensor_pair.cc
+++ b/sensors/sensor_pair.cc
@@ -169,38 +169,37 @@ void sensor_pair::notify_update(const biverb_collection::csptr* object) {
     {
         write_lock_guard guard(_mutex);
         _biverbs = *object;
-        if (_source->transmit_schedule().empty()) {
-            return;
-        }
-
-        // compute treverb from transmit schedule
-
-        const double treverb_min = 0.1;
-        double treverb = 0.0;
-        for (const auto& transmit : _source->transmit_schedule()) {
-            if (treverb == 0.0) {
-                treverb = transmit->duration;
-            } else {
-                treverb = std::min(treverb, transmit->duration);
+        if (!_source->transmit_schedule().empty()) {
+            // compute treverb from transmit schedule
+
+            const double treverb_min = 0.1;
+            double treverb = 0.0;
+            for (const auto& transmit : _source->transmit_schedule()) {
+                if (treverb == 0.0) {
+                    treverb = transmit->duration;
+                } else {
+                    treverb = std::min(treverb, transmit->duration);
+                }
             }
-        }
-        treverb = std::max(treverb_min, treverb / 2.0);
+            treverb = std::max(treverb_min, treverb / 2.0);
 
-        // launch a new reverberation time series generator background task
+            // launch a new reverberation time series generator background task
 
-        notify_early = false;
-        auto old_task = _rvbts_task.lock();
-        if (old_task != nullptr) {  // abort incomplete tasks
-            old_task->abort();
-        }
-        sensor_pair::sptr reference = sensor_manager::instance()->find(keyID());
-        if (reference == nullptr) {  // pair has been removed
-            return;
+            notify_early = false;
+            auto old_task = _rvbts_task.lock();
+            if (old_task != nullptr) {  // abort incomplete tasks
+                old_task->abort();
+            }
+            sensor_pair::sptr reference =
+                sensor_manager::instance()->find(keyID());
+            if (reference == nullptr) {  // pair has been removed
+                return;
+            }
+            auto new_task = std::make_shared<rvbts_generator>(
+                reference, _source, _receiver, treverb, _biverbs);
+            _rvbts_task = new_task;
+            thread_controller::instance()->run(new_task);
         }
-        auto new_task = std::make_shared<rvbts_generator>(
-            reference, _source, _receiver, treverb, _biverbs);
-        _rvbts_task = new_task;
-        thread_controller::instance()->run(new_task);
     }
     if (notify_early) {
         notify_update(this);
-- 
2.43.0


From 21d2726a54f8941d2ea082b4a8de53aa6012c2e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:42 +0000
Subject: [PATCH 31/67] fix: keep the sensor_pair of a rvbts_generator alive
 until the task is done

---
 rvbts/rvbts_generator.cc | 3 ++-
 rvbts/rvbts_generator.h  | 3 +++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/rvbts/rvbts_generator.cc b/rvbts/rvbts_generator.cc
index fdaa55c..b250975 100644
--- a/rvbts/rvbts_generator.cc
+++ b/rvbts/rvbts_generator.cc
@@ -26,7 +26,8 @@ rvbts_generator::rvbts_generator(const sensor_pair::sptr& pair,
                                  const sensor_model::sptr& receiver,
                                  const double treverb,
                                  const biverb_collection::csptr& biverbs)
-    : _description(pair->description()),
+    : _sensor_pair(pair),
+      _description(pair->description()),
       _source(source),
       _source_pos(source->position()),
       _source_orient(source->orient()),
diff --git a/rvbts/rvbts_generator.h b/rvbts/rvbts_generator.h
index 421ba40..a64804b 100644
--- a/rvbts/rvbts_generator.h
+++ b/rvbts/rvbts_generator.h
@@ -79,6 +79,9 @@ class USML_DECLSPEC rvbts_generator
      */
     matrix<double> compute_src_steering() const;
 
+    /// Sensor pair that listens to this task, owned until the task is done.
+    const sensor_pair::sptr _sensor_pair;
+
     /// Human readable name for this object instance.
     const std::string _description;
 
-- 
2.43.0


From fe03e2de8a564114acdbf88b8ea927d915486fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:31 +0000
Subject: [PATCH 32/67] fix: keep a managed sensor alive while its
 wavefront_generator runs

---
 wavegen/wavefront_generator.cc | 19 ++++++++++++++++++-
 wavegen/wavefront_generator.h  | 10 ++++++++++
 2 files changed, 28 insertions(+), 1 deletion(-)

diff --git a/wavegen/wavefront_generator.cc b/wavegen/wavefront_generator.cc
index 916c348..6aee558 100755
--- a/wavegen/wavefront_generator.cc
+++ b/wavegen/wavefront_generator.cc
@@ -7,6 +7,7 @@
 #include <usml/eigenverbs/eigenverb_collection.h>
 #include <usml/managed/managed_obj.h>
 #include <usml/ocean/ocean_shared.h>
+#include <usml/platforms/platform_manager.h>
 #include <usml/platforms/platform_model.h>
 #include <usml/sensors/sensor_model.h>
 #include <usml/wavegen/wavefront_generator.h>
@@ -33,6 +34,7 @@ wavefront_generator::wavefront_generator(
     int max_bottom, int max_surface, const std::string& wavefront_file)
     : _ocean(ocean_shared::current()),
       _source(source),
+      _source_managed(false),
       _source_position(source->position()),
       _target_positions(target_positions),
       _targetIDs(targetIDs),
@@ -44,7 +46,13 @@ wavefront_generator::wavefront_generator(
       _intensity_threshold(intensity_threshold),
       _max_bottom(max_bottom),
       _max_surface(max_surface),
-      _wavefront_file(wavefront_file) {}
+      _wavefront_file(wavefront_file) {
+    auto owner = platform_manager::instance()->find(source->keyID());
+    if (owner.get() == source) {
+        _source_managed = true;
+        _source_owner = owner;
+    }
+}
 
 /**
  * Executes the WaveQ3D propagation model.
@@ -58,6 +66,15 @@ void wavefront_generator::run() {
         return;
     }
 
+    // keep the source alive until this task ends
+
+    auto owner = _source_owner.lock();
+    if (_source_managed && owner == nullptr) {
+        cout << "task #" << id()
+             << " wavefront_generator *** source has been deleted ***" << endl;
+        return;
+    }
+
     // create a new wavefront
 
     cout << "task #" << id()
diff --git a/wavegen/wavefront_generator.h b/wavegen/wavefront_generator.h
index fda1f92..b82cfdd 100644
--- a/wavegen/wavefront_generator.h
+++ b/wavegen/wavefront_generator.h
@@ -12,8 +12,12 @@
 #include <usml/usml_config.h>
 
 #include <boost/numeric/ublas/matrix.hpp>
+#include <memory>
 
 namespace usml {
+namespace platforms {
+class platform_model;
+}
 namespace sensors {
 class sensor_model;
 }
@@ -81,6 +85,12 @@ class USML_DECLSPEC wavefront_generator : public thread_task {
     /// Also the destination of wavefront_listener callbacks.
     sensor_model* _source;
 
+    /// True if the lifetime of the source is managed by the platform_manager.
+    bool _source_managed;
+
+    /// Reference used to keep a managed source alive while this task runs.
+    std::weak_ptr<usml::platforms::platform_model> _source_owner;
+
     /// Position of the source at the time of invocation.
     /// Cached to avoid change while the calculation is being performed.
     const wposition1 _source_position;
-- 
2.43.0


From 7b457d8730e63b40b1495914472e07bf78e656a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:12 +0000
Subject: [PATCH 33/67] fix: gen_grid: compute the zero element instead of
 caching it in a mutable member

interpolate() is const and shared by all wavefront threads, and wrappers
that only set _data (ascii_profile, data_grid_svp) had no writeable data
to take the model element from.
---
 netcdf/netcdf_coards.h |  2 --
 types/gen_grid.h       | 65 ++++++++++++++++++------------------------
 2 files changed, 27 insertions(+), 40 deletions(-)

diff --git a/netcdf/netcdf_coards.h b/netcdf/netcdf_coards.h
index ecfc75f..c3bfaad 100644
--- a/netcdf/netcdf_coards.h
+++ b/netcdf/netcdf_coards.h
@@ -77,8 +77,6 @@ class netcdf_coards : public gen_grid<NUM_DIMS> {
      */
     netcdf_coards(netCDF::NcFile& file, const std::string& name,
                   bool read_fill = false) {
-        this->_zero = 0.0;  // avoid uninitialized values in gen_grid class
-
         // search for this grid in the NetCDF file
 
         netCDF::NcVar variable = file.getVar(name);
diff --git a/types/gen_grid.h b/types/gen_grid.h
index c276910..db86e8a 100755
--- a/types/gen_grid.h
+++ b/types/gen_grid.h
@@ -47,7 +47,6 @@ class USML_DLLEXPORT gen_grid : public data_grid<NUM_DIMS, DATA_TYPE> {
         _writeable_data = std::shared_ptr<DATA_TYPE[]>(new DATA_TYPE[N]);
         this->_data = _writeable_data;  // read only reference
         initialize<DATA_TYPE>::zero_n(_writeable_data.get(), N);
-        _zero = initialize<DATA_TYPE>::zero((_writeable_data.get())[0]);
     }
 
     /**
@@ -124,11 +123,7 @@ class USML_DLLEXPORT gen_grid : public data_grid<NUM_DIMS, DATA_TYPE> {
 
         // compute interpolation results for value and derivative
 
-        if (!_zero_init) {
-            _zero_init = true;
-            _zero = initialize<DATA_TYPE>::zero((_writeable_data.get())[0]);
-        }
-        DATA_TYPE dresult = _zero;
+        DATA_TYPE dresult = zero();
         return interp(NUM_DIMS - 1, index, loc, dresult, derivative);
     }
 
@@ -157,7 +152,7 @@ class USML_DLLEXPORT gen_grid : public data_grid<NUM_DIMS, DATA_TYPE> {
     DATA_TYPE
     interp(int dim, const size_t index[], const double location[],
            DATA_TYPE& deriv, DATA_TYPE deriv_vec[]) const {
-        DATA_TYPE result = _zero;
+        DATA_TYPE result = zero();
 
         if (dim < 0) {
             const size_t offset =
@@ -202,8 +197,8 @@ class USML_DLLEXPORT gen_grid : public data_grid<NUM_DIMS, DATA_TYPE> {
      */
     DATA_TYPE nearest(int dim, const size_t index[], const double location[],
                       DATA_TYPE& deriv, DATA_TYPE deriv_vec[]) const {
-        DATA_TYPE result = _zero;
-        DATA_TYPE da = _zero;
+        DATA_TYPE result = zero();
+        DATA_TYPE da = zero();
 
         // compute field value in this dimension
 
@@ -247,9 +242,9 @@ class USML_DLLEXPORT gen_grid : public data_grid<NUM_DIMS, DATA_TYPE> {
      */
     DATA_TYPE linear(int dim, const size_t index[], const double location[],
                      DATA_TYPE& deriv, DATA_TYPE deriv_vec[]) const {
-        DATA_TYPE result = _zero;
-        DATA_TYPE da = _zero;
-        DATA_TYPE db = _zero;
+        DATA_TYPE result = zero();
+        DATA_TYPE da = zero();
+        DATA_TYPE db = zero();
 
         // build interpolation coefficients
 
@@ -352,21 +347,21 @@ class USML_DLLEXPORT gen_grid : public data_grid<NUM_DIMS, DATA_TYPE> {
         seq_vector::csptr ax = this->_axis[dim];
         const size_t kmin = 1u;               // at endpt if k-1 < 0
         const size_t kmax = ax->size() - 3u;  // at endpt if k+2 > N-1
-        DATA_TYPE result = _zero;
+        DATA_TYPE result = zero();
 
         // dim-1 values at k-1, k, k+1, k+2
 
-        DATA_TYPE y0 = _zero;
-        DATA_TYPE y1 = _zero;
-        DATA_TYPE y2 = _zero;
-        DATA_TYPE y3 = _zero;
+        DATA_TYPE y0 = zero();
+        DATA_TYPE y1 = zero();
+        DATA_TYPE y2 = zero();
+        DATA_TYPE y3 = zero();
 
         // dim-1 derivatives at k-1, k, k+1, k+2
 
-        DATA_TYPE dy0 = _zero;
-        DATA_TYPE dy1 = _zero;
-        DATA_TYPE dy2 = _zero;
-        DATA_TYPE dy3 = _zero;
+        DATA_TYPE dy0 = zero();
+        DATA_TYPE dy1 = zero();
+        DATA_TYPE dy2 = zero();
+        DATA_TYPE dy3 = zero();
 
         // interpolate in dim-1 dimension to find values and derivs at k, k-1
 
@@ -424,9 +419,9 @@ class USML_DLLEXPORT gen_grid : public data_grid<NUM_DIMS, DATA_TYPE> {
 
         // forward derivatives of dim-1 derivatives
 
-        DATA_TYPE dderiv0 = _zero;
-        DATA_TYPE dderiv1 = _zero;
-        DATA_TYPE dderiv2 = _zero;
+        DATA_TYPE dderiv0 = zero();
+        DATA_TYPE dderiv1 = zero();
+        DATA_TYPE dderiv2 = zero();
         if (deriv_vec) {  // fwd deriv of dim-1 derivatives
             dderiv0 = (dy1 - dy0) / h0;
             dderiv1 = (dy2 - dy1) / h1;
@@ -439,8 +434,8 @@ class USML_DLLEXPORT gen_grid : public data_grid<NUM_DIMS, DATA_TYPE> {
         // set it zero at local maxima or minima
         // deriv0 * deriv1 condition guards against division by zero
 
-        DATA_TYPE slope1 = _zero;
-        DATA_TYPE dslope1 = _zero;
+        DATA_TYPE slope1 = zero();
+        DATA_TYPE dslope1 = zero();
 
         // when not at an end-point, slope1 is the harmonic, weighted
         // average of deriv0 and deriv1.
@@ -467,8 +462,8 @@ class USML_DLLEXPORT gen_grid : public data_grid<NUM_DIMS, DATA_TYPE> {
         // set it zero at local maxima or minima
         // deriv1 * deriv2 condition guards against division by zero
 
-        DATA_TYPE slope2 = _zero;
-        DATA_TYPE dslope2 = _zero;
+        DATA_TYPE slope2 = zero();
+        DATA_TYPE dslope2 = zero();
 
         // when not at an end-point, slope2 is the harmonic, weighted
         // average of deriv1 and deriv2.
@@ -532,18 +527,12 @@ class USML_DLLEXPORT gen_grid : public data_grid<NUM_DIMS, DATA_TYPE> {
     /**
      * Example of empty data type with vector/matrix correct size. If results
      * variables are left uninitialized, Valgrind's Memcheck flags them out as
-     * potential errors. Initializing declaration of DATA_TYPE to _zeros quiets
+     * potential errors. Initializing declaration of DATA_TYPE to zero() quiets
      * this error message.
      */
-    mutable DATA_TYPE _zero;
-
-    /**
-     * Since we don't know that the size of vector/matrix DATA_TYPEs are going
-     * to be until the interpolate() has been called, we set the value of _zero
-     * in interpolate() if it has not yet already been initialized. Since the
-     * interpolate() method is const, this field must be mutable.
-     */
-    mutable bool _zero_init{false};
+    DATA_TYPE zero() const {
+        return initialize<DATA_TYPE>::zero((this->_data.get())[0]);
+    }
 };
 
 }  // end of namespace types
-- 
2.43.0


From 39dd3fcca1578e97b1bf0edb08cad208fb7d07c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:13 +0000
Subject: [PATCH 34/67] fix: wave_queue: give _de_branch and _nc_rec a value at
 construction

---
 waveq3d/wave_queue.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/waveq3d/wave_queue.h b/waveq3d/wave_queue.h
index a60c5b5..fdfd53a 100755
--- a/waveq3d/wave_queue.h
+++ b/waveq3d/wave_queue.h
@@ -361,7 +361,7 @@ class USML_DECLSPEC wave_queue : public eigenray_notifier,
      * Treat all targets that are slightly away from directly above the
      * source as special cases.
      */
-    bool _de_branch;
+    bool _de_branch{false};
 
     /**
      * Initialize wavefronts at the start of propagation using a
@@ -753,7 +753,7 @@ class USML_DECLSPEC wave_queue : public eigenray_notifier,
         _nc_bottom, _nc_caustic, _nc_upper, _nc_lower, _nc_on_edge;
 
     /** Current record number in netDCF file. */
-    size_t _nc_rec;
+    size_t _nc_rec{0};
 
    public:
     /**
-- 
2.43.0


From b09a6136b54bcac9e30dcbb263ac4eb0cc7feb7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:13 +0000
Subject: [PATCH 35/67] fix: orientation: restore all angles before one of them
 is replaced

After a copy or rotate() the angles are NAN until they are read, so that
setting one of them turned the rotation matrix into NAN.
---
 types/orientation.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/types/orientation.h b/types/orientation.h
index 4c7da12..651d5c7 100755
--- a/types/orientation.h
+++ b/types/orientation.h
@@ -155,6 +155,7 @@ class USML_DECLSPEC orientation {
      * @param y Compass heading. (deg)
      */
     void yaw(double y) {
+        compute_angles();  // the other angles may be out of date
         _yaw = y;
         apply_rotation();
     }
@@ -173,6 +174,7 @@ class USML_DECLSPEC orientation {
      * @param p Up/down tilt relative to local ocean surface. (deg)
      */
     void pitch(double p) {
+        compute_angles();  // the other angles may be out of date
         _pitch = p;
         apply_rotation();
     }
@@ -191,6 +193,7 @@ class USML_DECLSPEC orientation {
      * @param r Left/right tilt relative to local ocean surface. (deg)
      */
     void roll(double r) {
+        compute_angles();  // the other angles may be out of date
         _roll = r;
         apply_rotation();
     }
-- 
2.43.0


From b0fdd21331e2c88f7dd6129fd1a6e0d6f3047567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:13 +0000
Subject: [PATCH 36/67] fix: boundary_slope: keep a copy of the reference
 location

The member was a reference to the constructor argument, which is usually
a temporary.
---
 ocean/boundary_slope.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocean/boundary_slope.h b/ocean/boundary_slope.h
index e522a7b..1fc714b 100644
--- a/ocean/boundary_slope.h
+++ b/ocean/boundary_slope.h
@@ -81,7 +81,7 @@ class USML_DECLSPEC boundary_slope : public boundary_model {
 
    private:
     /** Location at which initial depth and slope are specified. */
-    const wposition1& _location;
+    const wposition1 _location;
 
     /** Surface height in spherical earth coords. */
     const double _height;
-- 
2.43.0


From 50dbdb82a5c9654a36c05e1e55c8cb2639488a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:13 +0000
Subject: [PATCH 37/67] fix: data_grid_svp: forbid copies, the derivative table
 has one owner

---
 types/data_grid_svp.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/types/data_grid_svp.h b/types/data_grid_svp.h
index fd70758..ca7bf82 100755
--- a/types/data_grid_svp.h
+++ b/types/data_grid_svp.h
@@ -129,6 +129,10 @@ class USML_DECLSPEC data_grid_svp : public gen_grid<3> {
         }          // end for-loop in i
     }              // end Constructor
 
+    /// The derivative table has one owner, it can not be copied.
+    data_grid_svp(const data_grid_svp&) = delete;
+    data_grid_svp& operator=(const data_grid_svp&) = delete;
+
     /**
      * Destructor
      */
-- 
2.43.0


From 6fd95939529a0e9b4b662a81ae4fb02eff8d078f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:53 +0000
Subject: [PATCH 38/67] fix: wave_queue: forbid copies, the wavefronts have one
 owner

---
 waveq3d/wave_queue.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/waveq3d/wave_queue.h b/waveq3d/wave_queue.h
index fdfd53a..2f45cc1 100755
--- a/waveq3d/wave_queue.h
+++ b/waveq3d/wave_queue.h
@@ -125,6 +125,10 @@ class USML_DECLSPEC wave_queue : public eigenray_notifier,
                const wposition* target_pos = nullptr,
                spreading_type type = HYBRID_GAUSSIAN);
 
+    /// The wavefronts have one owner, it can not be copied.
+    wave_queue(const wave_queue&) = delete;
+    wave_queue& operator=(const wave_queue&) = delete;
+
     /** Destroy all temporary memory. */
     virtual ~wave_queue();
 
-- 
2.43.0


From 86c5d4e93af4a93acc42cc2c7953c252f3a09b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:21 +0000
Subject: [PATCH 39/67] fix: wave_queue: place volume eigenverbs on the layer,
 not the sea surface

---
 waveq3d/wave_queue.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/waveq3d/wave_queue.cc b/waveq3d/wave_queue.cc
index 7190bbc..0afe168 100755
--- a/waveq3d/wave_queue.cc
+++ b/waveq3d/wave_queue.cc
@@ -318,8 +318,7 @@ void wave_queue::detect_volume_scattering(size_t de, size_t az) {
 
         double c = _curr->sound_speed(de, az);
         const double d = c * c * _curr->ndirection.rho(de, az);
-        double time_water =
-            (d == 0.0) ? 0.0 : -_curr->position.altitude(de, az) / d;
+        double time_water = (d == 0.0) ? 0.0 : d2 / d;
 
         // compute the precise values for position, direction,
         // sound speed, and grazing angle at the point of collision
-- 
2.43.0


From bb41ba9df1a3ed45109f68ce66db170c4300ccee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:59 +0000
Subject: [PATCH 40/67] fix: eigenray_collection: dead reckon source motion
 along the ray, target motion at the target

---
 eigenrays/eigenray_collection.cc | 22 +++++++++++++++-------
 eigenrays/eigenray_collection.h  |  5 ++++-
 2 files changed, 19 insertions(+), 8 deletions(-)

diff --git a/eigenrays/eigenray_collection.cc b/eigenrays/eigenray_collection.cc
index cc0dad5..86bdddd 100644
--- a/eigenrays/eigenray_collection.cc
+++ b/eigenrays/eigenray_collection.cc
@@ -362,9 +362,10 @@ eigenray_list eigenray_collection::dead_reckon(
     size_t t1, size_t t2, const wposition1 &source_new,
     const wposition1 &target_new, const profile_model::csptr &profile) const {
     eigenray_list eigenrays =
-        dead_reckon_one(_eigenrays(t1, t2), _source_pos, source_new, profile);
+        dead_reckon_one(_eigenrays(t1, t2), _source_pos, source_new, profile,
+                        true);
     return dead_reckon_one(eigenrays, wposition1(_target_pos, t1, t2),
-                           target_new, profile);
+                           target_new, profile, false);
 }
 
 /**
@@ -372,7 +373,8 @@ eigenray_list eigenray_collection::dead_reckon(
  */
 eigenray_list eigenray_collection::dead_reckon_one(
     const eigenray_list &eigenrays, const wposition1 &oldpos,
-    const wposition1 &newpos, const profile_model::csptr &profile) {
+    const wposition1 &newpos, const profile_model::csptr &profile,
+    bool at_source) {
     // compute position change in local tangent plane
 
     double dir[3] = {newpos.rho() - oldpos.rho(),
@@ -405,8 +407,10 @@ eigenray_list eigenray_collection::dead_reckon_one(
 
         // compute ray direction in local tangent plane
 
-        const double de = to_radians(ray->source_de);
-        const double az = to_radians(ray->source_az);
+        const double de =
+            to_radians(at_source ? ray->source_de : ray->target_de);
+        const double az =
+            to_radians(at_source ? ray->source_az : ray->target_az);
         const double cos_de = cos(de);
         const double sin_de = sin(de);
         const double cos_az = cos(az);
@@ -414,10 +418,14 @@ eigenray_list eigenray_collection::dead_reckon_one(
         const double raydir[3] = {sin_de, -cos_de * cos_az, cos_de * sin_az};
 
         // change in range is proportional to the component of
-        // slant range along the direction of the ray
+        // slant range along the direction of the ray, the range becomes
+        // shorter when the source moves in the direction of propagation
 
-        const double dr =
+        double dr =
             (dir[0] * raydir[0] + dir[1] * raydir[1] + dir[2] * raydir[2]);
+        if (at_source) {
+            dr = -dr;
+        }
         new_ray->travel_time = ray->travel_time + dr / sound_speed;
 
         // compute change in intensity along ray path
diff --git a/eigenrays/eigenray_collection.h b/eigenrays/eigenray_collection.h
index 90380f5..c729790 100644
--- a/eigenrays/eigenray_collection.h
+++ b/eigenrays/eigenray_collection.h
@@ -272,6 +272,8 @@ class USML_DECLSPEC eigenray_collection : public eigenray_listener {
      * @param oldpos    Original sensor location.
      * @param newpos    Updated sensor location.
      * @param profile   Ocean profile model used to extract sound speed.
+     * @param at_source True if the sensor is the source, false if it is
+     *                  the target of these eigenrays.
      *
      * @xref E. K. Skarsoullis, "Multi-section matched-peak tomographic
      * inversion with a moving source", J. Acoust. Soc. Am.
@@ -280,7 +282,8 @@ class USML_DECLSPEC eigenray_collection : public eigenray_listener {
     static eigenray_list dead_reckon_one(const eigenray_list &eigenrays,
                                          const wposition1 &oldpos,
                                          const wposition1 &newpos,
-                                         const profile_model::csptr &profile);
+                                         const profile_model::csptr &profile,
+                                         bool at_source);
 };
 
 /// @}
-- 
2.43.0


From 3930b1aff16c2bfbde6a6483f23bab2f4274cc73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:04 +0000
Subject: [PATCH 41/67] fix: seq_vector: use the ratio of neighbours as
 increment of logarithmic sequences

---
 types/seq_vector.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/types/seq_vector.cc b/types/seq_vector.cc
index 82ba071..9f21d5d 100755
--- a/types/seq_vector.cc
+++ b/types/seq_vector.cc
@@ -81,7 +81,7 @@ seq_vector::csptr seq_vector::build_best(const double* data, size_t count) {
     } else if (isLinear) {
         seq = new seq_linear(minValue, (maxValue - minValue) / (N - 1), N);
     } else if (isLog) {
-        seq = new seq_log(minValue, (maxValue / minValue) / (N - 1), N);
+        seq = new seq_log(minValue, pow(maxValue / minValue, 1.0 / (N - 1)), N);
     } else {
         seq = new seq_data(data, count);
     }
-- 
2.43.0


From 00ba633172407f9fdccc61d408d1d40814af5352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:05 +0000
Subject: [PATCH 42/67] fix: data_grid: apply the reduced interpolation type to
 short axes

---
 types/data_grid.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/types/data_grid.h b/types/data_grid.h
index 4450fde..05cf3ad 100755
--- a/types/data_grid.h
+++ b/types/data_grid.h
@@ -140,9 +140,8 @@ class USML_DLLEXPORT data_grid {
             type = interp_enum::nearest;
         } else if (type > interp_enum::linear && size < 4) {
             type = interp_enum::linear;
-        } else {
-            this->_interp_type[dimension] = type;
         }
+        this->_interp_type[dimension] = type;
     }
 
     /**
-- 
2.43.0


From e12481b9d63666d37fbc7a35f924f9c1ee35dcd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:29 +0000
Subject: [PATCH 43/67] fix: sensor_pair: direct paths computed at the receiver
 run from source to receiver

---
 sensors/sensor_pair.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/sensors/sensor_pair.cc b/sensors/sensor_pair.cc
index b0a39f5..ee90dbc 100644
--- a/sensors/sensor_pair.cc
+++ b/sensors/sensor_pair.cc
@@ -92,15 +92,15 @@ void sensor_pair::update_wavefront_data(
         // swap source/receiver sense of direct path eigenrays, if needed
 
         if (_source != _receiver && sensor->keyID() == _receiver->keyID()) {
-            sourceID = _receiver->keyID();
-            targetID = _source->keyID();
-            source_pos = _receiver->position();
-            receiver_pos = _source->position();
             eigenray_list new_list;
-            for (const auto& ray : eigenrays->find_eigenrays(targetID)) {
+            for (const auto& ray : eigenrays->find_eigenrays(sourceID)) {
                 auto copy = std::make_shared<eigenray_model>(*ray);
                 std::swap(copy->source_de, copy->target_de);
                 std::swap(copy->source_az, copy->target_az);
+                copy->source_de = -copy->source_de;
+                copy->target_de = -copy->target_de;
+                copy->source_az += (copy->source_az < 180.0) ? 180.0 : -180.0;
+                copy->target_az += (copy->target_az < 180.0) ? 180.0 : -180.0;
                 new_list.push_back(copy);
             }
             raylist = new_list;  // replace original list
-- 
2.43.0


From f759e9b4e8be8f7814b005d0e903ace90796e3c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:31 +0000
Subject: [PATCH 44/67] fix: wq3d_eigenrays stored the bottom count as all
 other counts

---
 python/src/usml/eigenrays.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/python/src/usml/eigenrays.py b/python/src/usml/eigenrays.py
index 400ad06..79fc532 100644
--- a/python/src/usml/eigenrays.py
+++ b/python/src/usml/eigenrays.py
@@ -68,10 +68,10 @@ def wq3d_eigenrays(filename: str, srf: int = 0, btm: int = 0, upr: int = None, l
                     rays.intensity.append(-target.intensity.item(n))
                     rays.phase.append(model_phase)
                     rays.bottom.append(model_btm)
-                    rays.surface.append(model_btm)
-                    rays.caustic.append(model_btm)
-                    rays.upper.append(model_btm)
-                    rays.lower.append(model_btm)
+                    rays.surface.append(model_srf)
+                    rays.caustic.append(model_cst)
+                    rays.upper.append(model_upr)
+                    rays.lower.append(model_lwr)
 
     rays.horz_range = np.radians(model.latitude[:, 0] - model.source_latitude) * earth_radius
     rays.travel_time = np.asarray(rays.travel_time)
-- 
2.43.0


From e2801beff7430d8b9a96400c9a77b41ffc1e1755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:28 +0000
Subject: [PATCH 45/67] fix: wave_queue: third minor of the determinant of the
 distance Hessian

---
 waveq3d/wave_queue.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/waveq3d/wave_queue.cc b/waveq3d/wave_queue.cc
index 0afe168..5a159ea 100755
--- a/waveq3d/wave_queue.cc
+++ b/waveq3d/wave_queue.cc
@@ -760,7 +760,7 @@ void wave_queue::compute_offsets(size_t t1, size_t t2, size_t de, size_t az,
                       hessian(0, 1) * (hessian(1, 2) * hessian(2, 0) -
                                        hessian(1, 0) * hessian(2, 2)) +
                       hessian(0, 2) * (hessian(1, 0) * hessian(2, 1) -
-                                       hessian(2, 1) * hessian(2, 0)));
+                                       hessian(1, 1) * hessian(2, 0)));
     unstable = unstable || determinant < norm_2(gradient);
 
 #ifdef DEBUG_EIGENRAYS_DETAIL
-- 
2.43.0


From fbd55654af0b3acee632d3f196b888377974343e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:57 +0000
Subject: [PATCH 46/67] fix: profile_grid: no gradient along the axes that the
 grid does not have

---
 ocean/profile_grid.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ocean/profile_grid.h b/ocean/profile_grid.h
index 2194e53..fab6d2b 100644
--- a/ocean/profile_grid.h
+++ b/ocean/profile_grid.h
@@ -67,6 +67,10 @@ class profile_grid : public profile_model {
      */
     void sound_speed(const wposition& location, matrix<double>* speed,
                      wvector* gradient = nullptr) const override {
+        if (gradient) {
+            gradient->clear();
+        }
+
         switch (NUM_DIMS) {
                 //***************
                 // 1-D grids
-- 
2.43.0


From 77ecb4c7158a0144f64f04a834873b1cecc06882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:57 +0000
Subject: [PATCH 47/67] fix: profile_model: flat earth correction of the
 horizontal gradients

---
 ocean/profile_model.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ocean/profile_model.cc b/ocean/profile_model.cc
index 97aab58..348d139 100644
--- a/ocean/profile_model.cc
+++ b/ocean/profile_model.cc
@@ -20,6 +20,12 @@ void profile_model::adjust_speed(const wposition& location,
                 (element_prod(gradient->rho(), location.rho()) + *speed) /
                     wposition::earth_radius,
                 false);
+            gradient->theta(element_prod(gradient->theta(), location.rho()) /
+                                wposition::earth_radius,
+                            false);
+            gradient->phi(element_prod(gradient->phi(), location.rho()) /
+                              wposition::earth_radius,
+                          false);
         }
         *speed = element_prod(*speed, location.rho()) / wposition::earth_radius;
     }
-- 
2.43.0


From 9a9f21ba34578d80a56995d7a17484c5c01493aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:35 +0000
Subject: [PATCH 48/67] fix: wvector1: conversion between local and geocentric
 directions

The sines and cosines of the position were computed from the direction,
and the inverse mixed up the sines and cosines of both angles.
---
 types/wvector1.cc | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/types/wvector1.cc b/types/wvector1.cc
index fba7f5b..26b1806 100755
--- a/types/wvector1.cc
+++ b/types/wvector1.cc
@@ -95,10 +95,10 @@ double wvector1::direction(const wvector1& pos, const wvector1& dir) {
     const double dir_sp = sin(dir.phi());
     const double dir_cp = cos(dir.phi());
 
-    const double pos_st = sin(dir.theta());
-    const double pos_ct = cos(dir.theta());
-    const double pos_sp = sin(dir.phi());
-    const double pos_cp = cos(dir.phi());
+    const double pos_st = sin(pos.theta());
+    const double pos_ct = cos(pos.theta());
+    const double pos_sp = sin(pos.phi());
+    const double pos_cp = cos(pos.phi());
 
     const double x = dir.rho() * dir_cp * dir_st - pos.rho() * pos_cp * pos_st;
     const double y = dir.rho() * dir_sp * dir_st - pos.rho() * pos_sp * pos_st;
@@ -126,9 +126,9 @@ void wvector1::direction(const wvector1& pos, wvector1* dir) const {
     const double sp = sin(pos.phi());
     const double cp = cos(pos.phi());
 
-    const double x = _rho * ct * sp - _theta * st + _phi * ct * cp;
-    const double y = _rho * st * sp + _theta * ct + _phi * st * cp;
-    const double z = _rho * cp - _phi * sp;
+    const double x = _rho * st * cp + _theta * ct * cp - _phi * sp;
+    const double y = _rho * st * sp + _theta * ct * sp + _phi * cp;
+    const double z = _rho * ct - _theta * st;
 
     dir->rho(1.0);
     dir->theta(atan2(sqrt(x * x + y * y), z));
-- 
2.43.0


From e41a339751fe7042bd2939b47c264a8442b82ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:52 +0000
Subject: [PATCH 49/67] fix: biverb_collection: sign of the tilt term in the
 overlap

The square root of the squared coordinates made the cross term positive in
all four quadrants, so that eigenverbs on one side of a tilted eigenverb
were given the overlap of those on the other side.
---
 biverbs/biverb_collection.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/biverbs/biverb_collection.cc b/biverbs/biverb_collection.cc
index eb14379..9dd8796 100644
--- a/biverbs/biverb_collection.cc
+++ b/biverbs/biverb_collection.cc
@@ -150,7 +150,7 @@ void biverb_collection::add_biverb(const eigenverb_model::csptr& src_verb,
     const double kappa = -0.25 *
                          (xs2 * (src_sum + new_prod + 2.0 * rcv_length2) +
                           ys2 * (src_sum - new_prod + 2.0 * rcv_width2) -
-                          2.0 * sqrt(xs2 * ys2) * src_diff * sin2alpha) /
+                          2.0 * xs * ys * src_diff * sin2alpha) /
                          det_sr;
 #ifdef DEBUG_BIVERB
     cout << "\tdet_sr=" << det_sr << " kappa=" << kappa
-- 
2.43.0


From 2576f6a9bee6dc812733ec73bd6ff6b13a5440e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:00 +0000
Subject: [PATCH 50/67] fix: rvbts_collection: pulse length also scales
 interpolated eigenverb power

The factor was only applied when the eigenverb had one frequency.
---
 rvbts/rvbts_collection.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rvbts/rvbts_collection.cc b/rvbts/rvbts_collection.cc
index 6801d3d..fd6ad5a 100644
--- a/rvbts/rvbts_collection.cc
+++ b/rvbts/rvbts_collection.cc
@@ -74,7 +74,7 @@ void rvbts_collection::add_biverb(const biverb_model::csptr &verb,
 
     // interpolate eigenverb power
 
-    double verb_level = verb->power[0] * transmit->duration;
+    double verb_level = verb->power[0];
     if (verb->frequencies->size() > 1) {
         double freq = transmit->fcenter;
         const seq_vector &axis = *(verb->frequencies);
@@ -85,6 +85,7 @@ void rvbts_collection::add_biverb(const biverb_model::csptr &verb,
         double u = (freq - axis[index]) / axis.increment(index);
         verb_level = u * verb->power[index + 1] + (1 - u) * verb->power[index];
     }
+    verb_level *= transmit->duration;
 
     // compute source level for this transmission
 
-- 
2.43.0


From 42536f307e34d7963809aac35719eca1d806d2b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:01 +0000
Subject: [PATCH 51/67] fix: rvbts_collection: levels of source, eigenverb and
 receiver multiply

All of them are linear, and add_biverb() documents their product. The sum
gave every eigenverb the contribution of the source level.
---
 rvbts/rvbts_collection.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rvbts/rvbts_collection.cc b/rvbts/rvbts_collection.cc
index fd6ad5a..c9f6760 100644
--- a/rvbts/rvbts_collection.cc
+++ b/rvbts/rvbts_collection.cc
@@ -99,7 +99,7 @@ void rvbts_collection::add_biverb(const biverb_model::csptr &verb,
     bvector src_arrival(verb->source_de, verb->source_az);
     src_arrival.rotate(_source_orient, src_arrival);
     src_beam->beam_level(src_arrival, frequencies, &level, steering);
-    double src_level = transmit->source_level + level[0];
+    double src_level = transmit->source_level * level[0];
     if (src_level < power_threshold) {
         return;
     }
@@ -120,7 +120,7 @@ void rvbts_collection::add_biverb(const biverb_model::csptr &verb,
         rcv_arrival.rotate(_receiver_orient, rcv_arrival);
         bvector rcv_steering = _receiver->rcv_steering(rcv);
         rcv_beam->beam_level(rcv_arrival, frequencies, &level, rcv_steering);
-        double rcv_level = src_level + verb_level + level[0];
+        double rcv_level = src_level * verb_level * level[0];
         if (rcv_level < power_threshold) {
             continue;
         }
-- 
2.43.0


From b80c3f76117267236eb8b8209415d871f34c2985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:58 +0000
Subject: [PATCH 52/67] fix: rvbts_collection: start the time series from zero

The elements of a new ublas matrix have no value, and the contributions of
eigenverbs were added to them.
---
 rvbts/rvbts_collection.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rvbts/rvbts_collection.cc b/rvbts/rvbts_collection.cc
index c9f6760..c13fd32 100644
--- a/rvbts/rvbts_collection.cc
+++ b/rvbts/rvbts_collection.cc
@@ -47,7 +47,8 @@ rvbts_collection::rvbts_collection(
       _receiver_orient(receiver_orient),
       _receiver_speed(receiver_speed),
       _travel_times(travel_times),
-      _time_series(receiver->rcv_num_keys(), travel_times->size()) {}
+      _time_series(
+          zero_matrix<double>(receiver->rcv_num_keys(), travel_times->size())) {}
 
 /**
  * Adds the intensity contribution for a single bistatic eigenverb.
-- 
2.43.0


From fba784a70854a3261adb49dc17bbd5cb265de76c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:19 +0000
Subject: [PATCH 53/67] fix: rvbts_collection: arrival angles at source and
 receiver

Eigenverb angles are in radians and relative to the world, while bvector
expects degrees and beam patterns expect the coordinates of the array.
---
 rvbts/rvbts_collection.cc | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/rvbts/rvbts_collection.cc b/rvbts/rvbts_collection.cc
index c13fd32..e0f525f 100644
--- a/rvbts/rvbts_collection.cc
+++ b/rvbts/rvbts_collection.cc
@@ -23,6 +23,18 @@
 
 using namespace usml::rvbts;
 
+namespace {
+
+/**
+ * Converts a direction in world coordinates into array coordinates.
+ */
+bvector to_array(const orientation &orient, const bvector &world) {
+    return bvector(
+        vector<double>(prod(trans(orient.rotation()), world.data())));
+}
+
+}  // namespace
+
 /**
  * Threshold for minimum envelope power.
  */
@@ -97,8 +109,9 @@ void rvbts_collection::add_biverb(const biverb_model::csptr &verb,
     const seq_vector::csptr frequencies(
         new seq_linear(transmit->fcenter, 1.0, 1));
     vector<double> level(1);
-    bvector src_arrival(verb->source_de, verb->source_az);
-    src_arrival.rotate(_source_orient, src_arrival);
+    const bvector src_world(to_degrees(verb->source_de),
+                            to_degrees(verb->source_az));
+    const bvector src_arrival = to_array(_source_orient, src_world);
     src_beam->beam_level(src_arrival, frequencies, &level, steering);
     double src_level = transmit->source_level * level[0];
     if (src_level < power_threshold) {
@@ -117,8 +130,9 @@ void rvbts_collection::add_biverb(const biverb_model::csptr &verb,
         if (rcv_beam == nullptr) {
             continue;  // beam pattern removed since the keys were listed
         }
-        bvector rcv_arrival(verb->receiver_de, verb->receiver_az);
-        rcv_arrival.rotate(_receiver_orient, rcv_arrival);
+        const bvector rcv_world(to_degrees(verb->receiver_de),
+                                to_degrees(verb->receiver_az));
+        const bvector rcv_arrival = to_array(_receiver_orient, rcv_world);
         bvector rcv_steering = _receiver->rcv_steering(rcv);
         rcv_beam->beam_level(rcv_arrival, frequencies, &level, rcv_steering);
         double rcv_level = src_level * verb_level * level[0];
-- 
2.43.0


From d23ff110973ef4e886b6e915e8c78fd61a5eb577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:19 +0000
Subject: [PATCH 54/67] fix: bp_solid and bp_gaussian compare azimuths around
 the whole circle

---
 beampatterns/bp_gaussian.cc | 2 +-
 beampatterns/bp_solid.cc    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/beampatterns/bp_gaussian.cc b/beampatterns/bp_gaussian.cc
index 727e5a3..7a4b2e9 100644
--- a/beampatterns/bp_gaussian.cc
+++ b/beampatterns/bp_gaussian.cc
@@ -34,7 +34,7 @@ void bp_gaussian::beam_level(const bvector& arrival,
     if (_horz_half < 180.0) {
         az = atan2(steering.front(), steering.right());
         az = to_degrees(atan2(arrival.front(), arrival.right()) - az);
-        az = abs(fmod(az + 180.0, 360.0) - 180);
+        az = abs(remainder(az, 360.0));
         az /= (_horz_half * 2.0);
     }
 
diff --git a/beampatterns/bp_solid.cc b/beampatterns/bp_solid.cc
index 6047f28..7851c0e 100644
--- a/beampatterns/bp_solid.cc
+++ b/beampatterns/bp_solid.cc
@@ -27,7 +27,7 @@ void bp_solid::beam_level(const bvector& arrival,
     double az = atan2(steering.front(), steering.right());
     de = abs(to_degrees(asin(arrival.up()) - de));
     az = to_degrees(atan2(arrival.front(), arrival.right()) - az);
-    az = abs(fmod(az + 180.0, 360.0) - 180);
+    az = abs(remainder(az, 360.0));
     const double value = (de <= _vert_half && az <= _horz_half) ? 1.0 : 0.0;
     noalias(*level) = scalar_vector<double>(frequencies->size(), value);
 }
-- 
2.43.0


From e89f77694ae363edc5dac371a95d6a0c0d183937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:19 +0000
Subject: [PATCH 55/67] fix: bp_multi sum starts from zero instead of one

---
 beampatterns/bp_multi.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/beampatterns/bp_multi.cc b/beampatterns/bp_multi.cc
index 16e0198..d46f384 100755
--- a/beampatterns/bp_multi.cc
+++ b/beampatterns/bp_multi.cc
@@ -17,7 +17,8 @@ void bp_multi::beam_level(const bvector& arrival,
                           vector<double>* level, const bvector& steering,
                           double sound_speed) const {
     vector<double> tmp(frequencies->size(), 1.0);
-    *level = vector<double>(frequencies->size(), 1.0);
+    *level = vector<double>(frequencies->size(),
+                            _type == bp_multi_type::sum ? 0.0 : 1.0);
 
     for (const auto& pattern : _bp_list) {
         pattern->beam_level(arrival, frequencies, &tmp, steering, sound_speed);
-- 
2.43.0


From e187d5cbd9def2011ab4b505b4e9958a1f508a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:19 +0000
Subject: [PATCH 56/67] fix: beam level behind a baffle and default directivity
 do not depend on prior output contents

---
 beampatterns/bp_arb.cc    | 2 +-
 beampatterns/bp_model.cc  | 1 +
 beampatterns/bp_piston.cc | 2 +-
 beampatterns/bp_planar.cc | 2 +-
 4 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/beampatterns/bp_arb.cc b/beampatterns/bp_arb.cc
index f93ca3a..c3fa8b3 100644
--- a/beampatterns/bp_arb.cc
+++ b/beampatterns/bp_arb.cc
@@ -23,7 +23,7 @@ void bp_arb::beam_level(const bvector& arrival,
 
     if (_back_baffle) {
         if (arrival.front() <= 0.0) {
-            *level *= 0.0;
+            *level = zero_vector<double>(frequencies->size());
             return;
         }
     }
diff --git a/beampatterns/bp_model.cc b/beampatterns/bp_model.cc
index 8c9d0c2..a57d1b5 100644
--- a/beampatterns/bp_model.cc
+++ b/beampatterns/bp_model.cc
@@ -31,6 +31,7 @@ void bp_model::directivity(const seq_vector::csptr& frequencies,
                            double sound_speed) const {
     // loop over all solid angles
 
+    *level = zero_vector<double>(frequencies->size());
     vector<double> beam(frequencies->size(), 0.0);
     const double dangle = M_PI / 180.0;  // both dtheta and dphi
     for (double az = 0.0; az <= TWO_PI; az += dangle) {
diff --git a/beampatterns/bp_piston.cc b/beampatterns/bp_piston.cc
index fb6b286..953af15 100644
--- a/beampatterns/bp_piston.cc
+++ b/beampatterns/bp_piston.cc
@@ -24,7 +24,7 @@ void bp_piston::beam_level(const bvector& arrival,
     // set gain to zero in backplane when baffle is on
     if (_back_baffle) {
         if (arrival.front() <= 0.0) {
-            *level *= 0.0;
+            *level = zero_vector<double>(frequencies->size());
             return;
         }
     }
diff --git a/beampatterns/bp_planar.cc b/beampatterns/bp_planar.cc
index 6f965d8..f171e52 100644
--- a/beampatterns/bp_planar.cc
+++ b/beampatterns/bp_planar.cc
@@ -41,7 +41,7 @@ void bp_planar::beam_level(const bvector& arrival,
     // set gain to zero in backplane when baffle is on
     if (_back_baffle) {
         if (arrival.front() <= 0.0) {
-            *level *= 0.0;
+            *level = zero_vector<double>(frequencies->size());
             return;
         }
     }
-- 
2.43.0


From 70b596be2d7d08a4fe56922e917c21c46af4ef0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:19 +0000
Subject: [PATCH 57/67] fix: bp_piston directivity follows the square of the
 wavelength

---
 beampatterns/bp_piston.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/beampatterns/bp_piston.cc b/beampatterns/bp_piston.cc
index 953af15..d9d2ab7 100644
--- a/beampatterns/bp_piston.cc
+++ b/beampatterns/bp_piston.cc
@@ -45,9 +45,11 @@ void bp_piston::beam_level(const bvector& arrival,
 void bp_piston::directivity(const seq_vector::csptr& frequencies,
                             vector<double>* level, const bvector& /*steering*/,
                             double sound_speed) const {
+    // analytic solution for a piston that only radiates forward
     *level = frequencies->data();
-    *level /= (sound_speed * M_PI * _diameter);
-    if (_back_baffle) {
-        *level *= 0.5;
+    *level *= M_PI * _diameter / sound_speed;
+    *level = 1.0 / abs2(*level);
+    if (!_back_baffle) {
+        *level *= 2.0;
     }
 }
-- 
2.43.0


From cba0ed4ee2e844616ddea9a77102da2416c0fb75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:11 +0000
Subject: [PATCH 58/67] fix: bottom province axes end at the last coordinate of
 the file

---
 ocean/reflect_loss_netcdf.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ocean/reflect_loss_netcdf.cc b/ocean/reflect_loss_netcdf.cc
index 5a1cefb..e06246d 100644
--- a/ocean/reflect_loss_netcdf.cc
+++ b/ocean/reflect_loss_netcdf.cc
@@ -66,8 +66,8 @@ reflect_loss_netcdf::reflect_loss_netcdf(const char* filename) {
     // creates a sequence vector of axes that are passed to data grid
 
     seq_vector::csptr axis[2];
-    double latinc = (latitude[latdim - 1] - latitude[0]) / double(latdim);
-    double loninc = (longitude[londim - 1] - longitude[0]) / double(londim);
+    double latinc = (latitude[latdim - 1] - latitude[0]) / double(latdim - 1);
+    double loninc = (longitude[londim - 1] - longitude[0]) / double(londim - 1);
     axis[0] = seq_vector::csptr(
         new seq_linear(latitude[0], latinc, int(latdim)));
     axis[1] = seq_vector::csptr(
-- 
2.43.0


From cd1c524c05ea383a661bb9e531d39f932599b15d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:16 +0000
Subject: [PATCH 59/67] fix: Rayleigh bottom reflection has the phase of
 impedances, not of their reciprocals

---
 ocean/reflect_loss_rayleigh.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ocean/reflect_loss_rayleigh.cc b/ocean/reflect_loss_rayleigh.cc
index bcafc88..5a6c2a5 100644
--- a/ocean/reflect_loss_rayleigh.cc
+++ b/ocean/reflect_loss_rayleigh.cc
@@ -113,8 +113,9 @@ void reflect_loss_rayleigh::reflect_loss(const wposition1& /*location*/,
     }
 
     // compute complex reflection coefficient
+    // note that Zw and Zb are reciprocals of the acoustic impedances
 
-    complex<double> R = (Zb - Zw) / (Zb + Zw);
+    complex<double> R = (Zw - Zb) / (Zw + Zb);
     noalias(*amplitude) =
         -20.0 * log10(abs(R)) * scalar_vector<double>(frequencies->size(), 1.0);
     if (phase != nullptr) {
-- 
2.43.0


From de19ed7caf8be45f67fbfd02e687ed645dedb75c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:19 +0000
Subject: [PATCH 60/67] fix: PCHIP slopes use the widths of their own
 intervals, also at the end points

---
 types/gen_grid.h       | 12 ++++++------
 types/gen_grid_utils.h |  4 ++--
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/types/gen_grid.h b/types/gen_grid.h
index db86e8a..df21bbe 100755
--- a/types/gen_grid.h
+++ b/types/gen_grid.h
@@ -450,8 +450,8 @@ class USML_DLLEXPORT gen_grid : public data_grid<NUM_DIMS, DATA_TYPE> {
             // note that the deriv0 value is bogus values when this is true
 
         } else {
-            slope1 = ((2.0 + h1 + h2) * deriv1 - h1 * deriv2) / (h1 + h2);
-            dslope1 = ((2.0 + h1 + h2) * dderiv1 - h1 * dderiv2) / (h1 + h2);
+            slope1 = ((2.0 * h1 + h2) * deriv1 - h1 * deriv2) / (h1 + h2);
+            dslope1 = ((2.0 * h1 + h2) * dderiv1 - h1 * dderiv2) / (h1 + h2);
             end_point_derivative<DATA_TYPE>::compute(
                 deriv1, deriv2, dderiv1, dderiv2, deriv_vec, slope1, dslope1);
         }
@@ -469,8 +469,8 @@ class USML_DLLEXPORT gen_grid : public data_grid<NUM_DIMS, DATA_TYPE> {
         // average of deriv1 and deriv2.
 
         if (k <= kmax) {
-            const double w1 = 2.0 * h1 + h0;
-            const double w2 = h1 + 2.0 * h0;
+            const double w1 = 2.0 * h2 + h1;
+            const double w2 = h2 + 2.0 * h1;
             derivative<DATA_TYPE>::compute(deriv1, deriv2, dderiv1, dderiv2, w1,
                                            w2, deriv_vec, slope2, dslope2);
 
@@ -479,8 +479,8 @@ class USML_DLLEXPORT gen_grid : public data_grid<NUM_DIMS, DATA_TYPE> {
             // true
 
         } else {  // otherwise, compute harmonic weighted average
-            slope2 = ((2.0 + h1 + h2) * deriv1 - h1 * deriv0) / (h1 + h0);
-            dslope2 = ((2.0 + h1 + h2) * dderiv1 - h1 * dderiv0) / (h1 + h0);
+            slope2 = ((2.0 * h1 + h0) * deriv1 - h1 * deriv0) / (h1 + h0);
+            dslope2 = ((2.0 * h1 + h0) * dderiv1 - h1 * dderiv0) / (h1 + h0);
             end_point_derivative<DATA_TYPE>::compute(
                 deriv1, deriv0, dderiv1, dderiv0, deriv_vec, slope2, dslope2);
         }
diff --git a/types/gen_grid_utils.h b/types/gen_grid_utils.h
index ceaa367..7b560a9 100644
--- a/types/gen_grid_utils.h
+++ b/types/gen_grid_utils.h
@@ -148,8 +148,8 @@ struct end_point_derivative {
                         argument_type& dm) {
         if (m * d0 < 0.0) {
             m = 0.0;
-        } else if ((d0 * d1 < 0.0) && (abs(m) > abs(3.0 * d1))) {
-            m = 3.0 * d1;
+        } else if ((d0 * d1 < 0.0) && (abs(m) > abs(3.0 * d0))) {
+            m = 3.0 * d0;
         }
         if (deriv) {
             if (dm * dd0 < 0.0) {
-- 
2.43.0


From dee97a71f128e34df15908c15710e1c83e494bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:52 +0000
Subject: [PATCH 61/67] fix: linear interpolation kept the slopes of earlier
 axes from the next grid plane only

---
 types/gen_grid.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/types/gen_grid.h b/types/gen_grid.h
index df21bbe..3fddd6e 100755
--- a/types/gen_grid.h
+++ b/types/gen_grid.h
@@ -249,6 +249,8 @@ class USML_DLLEXPORT gen_grid : public data_grid<NUM_DIMS, DATA_TYPE> {
         // build interpolation coefficients
 
         const DATA_TYPE a = interp(dim - 1, index, location, da, deriv_vec);
+        DATA_TYPE prior[NUM_DIMS];  // derivatives of dimensions before dim-1
+        if (deriv_vec && dim > 1) std::copy_n(deriv_vec, dim - 1, prior);
         size_t next[NUM_DIMS];
         std::copy_n(index, NUM_DIMS, next);
         ++next[dim];
@@ -270,6 +272,9 @@ class USML_DLLEXPORT gen_grid : public data_grid<NUM_DIMS, DATA_TYPE> {
             if (dim > 0) {
                 deriv_vec[dim - 1] = da * (1.0 - u) + db * u;
             }
+            for (int d = 0; d < dim - 1; ++d) {
+                deriv_vec[d] = prior[d] * (1.0 - u) + deriv_vec[d] * u;
+            }
         }
 
         // use results for dim+1 iteration
-- 
2.43.0


From 67f0aa5015d7af25c9c796e004855d3fb3384913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:28 +0000
Subject: [PATCH 62/67] fix: data_grid_svp slope at the last depth uses the
 last two intervals

---
 types/data_grid_svp.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/types/data_grid_svp.h b/types/data_grid_svp.h
index ca7bf82..2baed92 100755
--- a/types/data_grid_svp.h
+++ b/types/data_grid_svp.h
@@ -91,21 +91,21 @@ class USML_DECLSPEC data_grid_svp : public gen_grid<3> {
                             result = 3.0 * slope_1;
                         }
                     } else if (i == _kzmax) {
-                        inc1 = this->axis(0).increment(i - 1);
-                        inc2 = this->axis(0).increment(i);
+                        inc1 = this->axis(0).increment(i - 2);
+                        inc2 = this->axis(0).increment(i - 1);
                         slope_1 =
                             (data_3d(i - 1, j, k) - data_3d(i - 2, j, k)) /
                             inc1;
                         slope_2 =
                             (data_3d(i, j, k) - data_3d(i - 1, j, k)) / inc2;
                         result =
-                            ((2.0 * inc1 + inc2) * slope_2 - inc1 * slope_1) /
+                            ((2.0 * inc2 + inc1) * slope_2 - inc2 * slope_1) /
                             (inc1 + inc2);
-                        if (result * slope_1 <= 0.0) {
+                        if (result * slope_2 <= 0.0) {
                             result = 0.0;
                         } else if ((slope_1 * slope_2 <= 0.0) &&
-                                   (abs(result) > abs(3.0 * slope_1))) {
-                            result = 3.0 * slope_1;
+                                   (abs(result) > abs(3.0 * slope_2))) {
+                            result = 3.0 * slope_2;
                         }
                     } else {
                         inc1 = this->axis(0).increment(i - 1);
-- 
2.43.0


From 99fc368eaec1538da224df55b2d8a725991877ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:28 +0000
Subject: [PATCH 63/67] fix: data_grid_bathy kept locations off the last
 interval, and nearest ignored the axis values

---
 types/data_grid_bathy.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/types/data_grid_bathy.h b/types/data_grid_bathy.h
index 667f319..3741092 100755
--- a/types/data_grid_bathy.h
+++ b/types/data_grid_bathy.h
@@ -270,7 +270,7 @@ class USML_DECLSPEC data_grid_bathy : public data_grid<2> {
 
             if (edge_limit(dim)) {
                 double a = ax(0);
-                double b = ax(ax.size() - 2);
+                double b = ax(ax.size() - 1);
                 double sign = (ax.increment(0) < 0) ? -1.0 : 1.0;
                 double d = loc[dim] * sign;
                 if (d <= a * sign) {  // left of the axis
@@ -295,8 +295,8 @@ class USML_DECLSPEC data_grid_bathy : public data_grid<2> {
             //****nearest****
             case interp_enum::nearest:
                 for (int dim = 0; dim < 2; ++dim) {
-                    double inc = axis(dim).increment(0);
-                    double u = abs(loc[dim] - offset[dim]) / inc;
+                    double inc = axis(dim).increment(offset[dim]);
+                    double u = (loc[dim] - axis(dim)(offset[dim])) / inc;
                     if (u < 0.5) {
                         fast_index[dim] = offset[dim];
                     } else {
-- 
2.43.0


From 6b097e07d28f1b8c76412acd95b1784d91752513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:19 +0000
Subject: [PATCH 64/67] fix: PCHIP slope at the end of an axis is zero next to
 a flat interval

---
 types/gen_grid_utils.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/types/gen_grid_utils.h b/types/gen_grid_utils.h
index 7b560a9..813cfc5 100644
--- a/types/gen_grid_utils.h
+++ b/types/gen_grid_utils.h
@@ -146,13 +146,13 @@ struct end_point_derivative {
     static void compute(argument_type d0, argument_type d1, argument_type dd0,
                         argument_type dd1, bool deriv, argument_type& m,
                         argument_type& dm) {
-        if (m * d0 < 0.0) {
+        if (m * d0 <= 0.0) {
             m = 0.0;
         } else if ((d0 * d1 < 0.0) && (abs(m) > abs(3.0 * d0))) {
             m = 3.0 * d0;
         }
         if (deriv) {
-            if (dm * dd0 < 0.0) {
+            if (dm * dd0 <= 0.0) {
                 dm = 0.0;
             } else if ((dd0 * dd1 < 0.0) && (abs(dm) > abs(3.0 * dd0))) {
                 dm = 3.0 * dd0;
@@ -194,14 +194,14 @@ struct end_point_derivative<boost::numeric::ublas::vector<T> > {
                         argument_type& dm) {
         size_type size(d0.size());
         for (size_type i = 0; i < size; ++i) {
-            if (m(i) * d0(i) < 0.0) {
+            if (m(i) * d0(i) <= 0.0) {
                 m(i) = 0.0;
             } else if ((d0(i) * d1(i) < 0.0) &&
                        (abs(m(i)) > abs(3.0 * d0(i)))) {
                 m(i) = 3.0 * d0(i);
             }
             if (deriv) {
-                if (dm(i) * dd0(i) < 0.0) {
+                if (dm(i) * dd0(i) <= 0.0) {
                     dm(i) = 0.0;
                 } else if ((dd0(i) * dd1(i) < 0.0) &&
                            (abs(dm(i)) > abs(3.0 * dd0(i)))) {
@@ -231,14 +231,14 @@ struct end_point_derivative<boost::numeric::ublas::matrix<T> > {
         size_type size2(d0.size2());
         for (size_type i = 0; i < size1; ++i) {
             for (size_type j = 0; j < size2; ++j) {
-                if (m(i, j) * d0(i, j) < 0.0) {
+                if (m(i, j) * d0(i, j) <= 0.0) {
                     m(i, j) = 0.0;
                 } else if ((d0(i, j) * d1(i, j) < 0.0) &&
                            (abs(m(i, j)) > abs(3.0 * d0(i, j)))) {
                     m(i, j) = 3.0 * d0(i, j);
                 }
                 if (deriv) {
-                    if (dm(i, j) * dd0(i, j) < 0.0) {
+                    if (dm(i, j) * dd0(i, j) <= 0.0) {
                         dm(i, j) = 0.0;
                     } else if ((dd0(i, j) * dd1(i, j) < 0.0) &&
                                (abs(dm(i, j)) > abs(3.0 * dd0(i, j)))) {
-- 
2.43.0


From 0776b6884960ba8646f996a685bec764c58da5f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:19 +0000
Subject: [PATCH 65/67] fix: build_best() took sequences that contain zero for
 linear or logarithmic

---
 types/seq_vector.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/types/seq_vector.cc b/types/seq_vector.cc
index 9f21d5d..6b720ff 100755
--- a/types/seq_vector.cc
+++ b/types/seq_vector.cc
@@ -62,10 +62,11 @@ seq_vector::csptr seq_vector::build_best(const double* data, size_t count) {
         for (size_t n = 2; n < N; ++n) {
             double p3 = data[n];
             maxValue = p3;
-            if (p2 != 0.0 && abs(((p3 - p2) - (p2 - p1)) / p2) > 1E-4) {
+            const double scale = (p2 != 0.0) ? p2 : p3 - p1;
+            if (abs(((p3 - p2) - (p2 - p1)) / scale) > 1E-4) {
                 isLinear = false;
             }
-            if (p1 != 0.0 && p2 != 0.0 && abs((p3 / p2) - (p2 / p1)) > 1E-5) {
+            if (p1 == 0.0 || p2 == 0.0 || abs((p3 / p2) - (p2 / p1)) > 1E-5) {
                 isLog = false;
             }
             p1 = p2;
-- 
2.43.0


From 95241b9d0cd37bff4dff57dc660b0b60462295ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:19 +0000
Subject: [PATCH 66/67] fix: seq_log built from its last value: tolerance
 relative to a step

---
 types/seq_log.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/types/seq_log.h b/types/seq_log.h
index c8d24ec..3731439 100755
--- a/types/seq_log.h
+++ b/types/seq_log.h
@@ -57,7 +57,7 @@ class USML_DECLSPEC seq_log : public seq_vector {
                          ? 1
                          : max((difference_type)1,
                                (difference_type)floor(
-                                   1.0 + (log((last + increment / 10) / first) /
+                                   1.1 + (log(last / first) /
                                           log(increment))))) {
         initialize(first, increment, size());
     }
-- 
2.43.0


From bba0bba9de50ba8f2f8b456b10988f0b9b911d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:28 +0000
Subject: [PATCH 67/67] fix: PCHIP slopes of complex tables tested the wrong
 difference

---
 types/gen_grid_utils.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/types/gen_grid_utils.h b/types/gen_grid_utils.h
index 813cfc5..f9e7568 100644
--- a/types/gen_grid_utils.h
+++ b/types/gen_grid_utils.h
@@ -77,7 +77,7 @@ struct derivative<std::complex<T> > {
         if (abs(d0) * abs(d1) > 0.0) {
             m = (w0 + w1) / (w0 / d0 + w1 / d1);
         }
-        if (deriv && abs(d0) * abs(dd1) > 0.0) {
+        if (deriv && abs(dd0) * abs(dd1) > 0.0) {
             dm = (w0 + w1) / (w0 / dd0 + w1 / dd1);
         }
     }
-- 
2.43.0

