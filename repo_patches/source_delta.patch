From e2564c263414a83f3df534a02a17bcbf5c173400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:33 +0000
Subject: [PATCH 01/86] fix: drop all arguments when outputs depend on none of
 the inputs

With an empty list of remaining inputs the range to erase was (0, -0), which
erases nothing, and every run ended with an unexpected number of outputs.
---
 src/compiler/compiler.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compiler/compiler.cpp b/src/compiler/compiler.cpp
index 402f6e1..89680b7 100644
--- a/src/compiler/compiler.cpp
+++ b/src/compiler/compiler.cpp
@@ -358,7 +358,7 @@ namespace ts {
         if (!satisfied) {
             map<Node, size_t> working_input_nodes;
             for (auto &node : inputs) working_input_nodes.insert(std::make_pair(node, working_input_nodes.size()));
-            block.instructions.push_back(instruction::Stack::erase(0, -int(simulator.size())));
+            block.instructions.push_back(instruction::Stack::erase(0, int(inputs.size())));
             for (auto it = simulator.rbegin(); it != simulator.rend(); ++it) {
                 block.instructions.push_back(instruction::Stack::push(int(working_input_nodes[*it])));
             }
-- 
2.43.0


From df5e72a558272d3be08aac1b73b4f46368c69124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:33 +0000
Subject: [PATCH 02/86] fix: address inputs by their position when an input is
 repeated

The slot was taken from the number of distinct inputs seen, so inputs after a
repeated one were read from the wrong slot.
---
 src/compiler/compiler.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compiler/compiler.cpp b/src/compiler/compiler.cpp
index 89680b7..d798bfd 100644
--- a/src/compiler/compiler.cpp
+++ b/src/compiler/compiler.cpp
@@ -357,7 +357,7 @@ namespace ts {
         }
         if (!satisfied) {
             map<Node, size_t> working_input_nodes;
-            for (auto &node : inputs) working_input_nodes.insert(std::make_pair(node, working_input_nodes.size()));
+            for (size_t i = 0; i < inputs.size(); ++i) working_input_nodes.insert(std::make_pair(inputs[i], i));
             block.instructions.push_back(instruction::Stack::erase(0, int(inputs.size())));
             for (auto it = simulator.rbegin(); it != simulator.rend(); ++it) {
                 block.instructions.push_back(instruction::Stack::push(int(working_input_nodes[*it])));
-- 
2.43.0


From b73aaf352cdebdd179dc4d6f73b82c548feb055c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:33 +0000
Subject: [PATCH 03/86] fix: fold constants of a repeated output only once

The output node was overwritten by its folded form before being remembered, so
asking for an output twice duplicated the node and executed it twice.
---
 src/compiler/compiler.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/compiler/compiler.cpp b/src/compiler/compiler.cpp
index d798bfd..7cae65d 100644
--- a/src/compiler/compiler.cpp
+++ b/src/compiler/compiler.cpp
@@ -454,9 +454,10 @@ namespace ts {
         const_nodes.clear();
         std::unordered_map<Node, Node> ready_const;
         std::unordered_map<Node, Node> ready_nonconst;
-        for (auto node : nodes) {
-            run_const_node(node, node, ready_const, ready_nonconst);
-            const_nodes.emplace_back(node);
+        for (auto &node : nodes) {
+            auto const_node = node;
+            run_const_node(node, const_node, ready_const, ready_nonconst);
+            const_nodes.emplace_back(const_node);
         }
     }
 
-- 
2.43.0


From c322c45c8653d5c52592658e99fecebe73cee5c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:33 +0000
Subject: [PATCH 04/86] fix: do not fold pack and field nodes of constants

They are instructions, not operators, so running them in advance failed and the
network could not be compiled.
---
 src/compiler/compiler.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/compiler/compiler.cpp b/src/compiler/compiler.cpp
index 7cae65d..6524bf9 100644
--- a/src/compiler/compiler.cpp
+++ b/src/compiler/compiler.cpp
@@ -415,7 +415,8 @@ namespace ts {
         // check if each input is const or new
         std::vector<Tensor> const_inputs;
         std::vector<Node> const_input_nodes;
-        bool input_are_const = true;
+        // inner instructions (like pack and field) have no operator to run in advance
+        bool input_are_const = InstructionCreator::Query(node->op()) == nullptr;
         bool build_new_node = false;
         for (const auto &input : node.inputs()) {
             auto const_input = input;
-- 
2.43.0


From aafeb017834ecfaa7c19612440d7c2c4bed520a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:56 +0000
Subject: [PATCH 05/86] fix: stop a worker thread without losing the wake-up or
 its task

The stop flag was set and signalled without the lock, so a worker about to wait
missed it and the destructor blocked forever; a task given just before was
dropped.
---
 src/runtime/inside/thread_pool.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/runtime/inside/thread_pool.cpp b/src/runtime/inside/thread_pool.cpp
index 3540e7b..05de6bf 100644
--- a/src/runtime/inside/thread_pool.cpp
+++ b/src/runtime/inside/thread_pool.cpp
@@ -13,7 +13,12 @@ namespace ts {
     }
 
     Thread::~Thread() {
-        is_running = false;
+        {
+            // finish the task already given, and never signal between the worker's check and its wait
+            std::unique_lock<std::mutex> locker(task_mutex);
+            while (task) task_cond.wait(locker);
+            is_running = false;
+        }
         task_cond.notify_all();
         core.join();
     }
-- 
2.43.0


From d4cc14f8a72ce5d970d344107b81ebd4e06cb902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:56 +0000
Subject: [PATCH 06/86] fix: call the completion callback in a pool without
 threads too

---
 src/runtime/inside/thread_pool.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/runtime/inside/thread_pool.cpp b/src/runtime/inside/thread_pool.cpp
index 05de6bf..889f066 100644
--- a/src/runtime/inside/thread_pool.cpp
+++ b/src/runtime/inside/thread_pool.cpp
@@ -87,6 +87,7 @@ namespace ts {
     Thread *ThreadPool::run(const Thread::task_type &task, const Thread::after_task_type &after_task) {
         if (thread_pool.size() == 0) {
             task(0);
+            if (after_task) after_task(0);
             return nullptr;
         } else {
             int signet = load();
-- 
2.43.0


From 79a13bae2792a7071e4da485e869ae89255153b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:37 +0000
Subject: [PATCH 07/86] fix: start the frame of a call without arguments at the
 top of the stack

A frame for zero arguments was opened at position -0, the bottom of the current
frame, so the values already there became part of the call.
---
 src/runtime/instruction.cpp | 2 +-
 src/runtime/operator.cpp    | 4 ++--
 src/runtime/workbench.cpp   | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/runtime/instruction.cpp b/src/runtime/instruction.cpp
index c01ea04..d09ae15 100644
--- a/src/runtime/instruction.cpp
+++ b/src/runtime/instruction.cpp
@@ -37,7 +37,7 @@ namespace ts {
         TS_AUTO_CHECK(stack.size() >= static_cast<size_t>(m_nargs));
 
         // save base
-        stack.push_base(-m_nargs);
+        stack.push_base(int(stack.size()) - m_nargs);
         ts::need pop_base(&Stack::pop_base, &stack);
 
 #ifdef TS_USE_HOOK
diff --git a/src/runtime/operator.cpp b/src/runtime/operator.cpp
index 4663cdc..96570a8 100644
--- a/src/runtime/operator.cpp
+++ b/src/runtime/operator.cpp
@@ -263,7 +263,7 @@ namespace ts {
         TS_AUTO_CHECK(stack.size() >= static_cast<size_t>(nargs));
 
         // save base
-        stack.push_base(-nargs);
+        stack.push_base(int(stack.size()) - nargs);
         ts::need pop_base(&Stack::pop_base, &stack);
 
         // call function
@@ -281,7 +281,7 @@ namespace ts {
         TS_AUTO_CHECK(stack.size() >= static_cast<size_t>(nargs));
 
         // save base
-        stack.push_base(-nargs);
+        stack.push_base(int(stack.size()) - nargs);
         ts::need pop_base(&Stack::pop_base, &stack);
 
         auto returned_value = op->infer(stack, output);
diff --git a/src/runtime/workbench.cpp b/src/runtime/workbench.cpp
index a3bcaf4..4b07543 100644
--- a/src/runtime/workbench.cpp
+++ b/src/runtime/workbench.cpp
@@ -438,7 +438,7 @@ namespace ts {
         /**
          * Save base, so now can do something
          */
-        this->m_stack->push_base(-nargs);
+        this->m_stack->push_base(int(this->m_stack->size()) - nargs);
         ts::need pop_base(&Stack::pop_base, this->m_stack.get());
 
         /**
-- 
2.43.0


From ca5af9d639f2f2389b8717db938aa471152c94ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:51 +0000
Subject: [PATCH 08/86] fix: keep input and output names when cloning a program

---
 src/runtime/program.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/runtime/program.cpp b/src/runtime/program.cpp
index 4caedf7..cea8bab 100644
--- a/src/runtime/program.cpp
+++ b/src/runtime/program.cpp
@@ -151,6 +151,8 @@ namespace ts {
         // dolly->m_outputs.resize(this->m_outputs.size());
         dolly->m_map_input_slots = this->m_map_input_slots;
         dolly->m_map_output_slots = this->m_map_output_slots;
+        dolly->m_input_names = this->m_input_names;
+        dolly->m_output_names = this->m_output_names;
         dolly->m_data_segment = this->m_data_segment;
         dolly->m_input_filters.resize(this->m_input_filters.size(), nullptr);
 
-- 
2.43.0


From 36268a102a1ba6f3497fb273891697b2d459e0c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:51 +0000
Subject: [PATCH 09/86] fix: keep the declared type and shape of inputs when
 translating

---
 src/compiler/option/fp16_translator_option.cpp | 2 +-
 src/compiler/option/pack_translator_option.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/compiler/option/fp16_translator_option.cpp b/src/compiler/option/fp16_translator_option.cpp
index 3f28936..b682d1f 100644
--- a/src/compiler/option/fp16_translator_option.cpp
+++ b/src/compiler/option/fp16_translator_option.cpp
@@ -24,7 +24,7 @@ ts::Fp16TranslatorOption::translate(const ts::ComputingDevice &device,
 
     if (Bubble::IsEndPoint(op_name)) {
         if (op_name == Bubble::Parameter)
-            translated_node = bubble::param(node.bubble().name());
+            translated_node = bubble::bubble(node.bubble());
         else if (op_name == Bubble::Const) {
             translated_node = bubble::bubble(node.bubble());
         }
diff --git a/src/compiler/option/pack_translator_option.cpp b/src/compiler/option/pack_translator_option.cpp
index e8182aa..3c83991 100644
--- a/src/compiler/option/pack_translator_option.cpp
+++ b/src/compiler/option/pack_translator_option.cpp
@@ -32,7 +32,7 @@ bool ts::PackTranslatorOption::translate(const ComputingDevice &device, const No
 
     if (Bubble::IsEndPoint(op_name)) {
         if (op_name == Bubble::Parameter)
-            translated_node = bubble::param(node.bubble().name());
+            translated_node = bubble::bubble(node.bubble());
         else if (op_name == Bubble::Const) {
             translated_node = bubble::bubble(node.bubble());
         }
-- 
2.43.0


From e408bf6dec6cef4314d1c4b198d092ff5d7ef5ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:37 +0000
Subject: [PATCH 10/86] fix: give out copies of constants that are outputs

---
 include/core/tensor.h           | 5 +++++
 include/core/threadsafe/smart.h | 4 ++++
 src/core/tensor.cpp             | 8 ++++++++
 src/runtime/workbench.cpp       | 4 +++-
 4 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/include/core/tensor.h b/include/core/tensor.h
index 2f875b0..aaee8eb 100644
--- a/include/core/tensor.h
+++ b/include/core/tensor.h
@@ -294,6 +294,11 @@ namespace ts {
          */
         Tensor strong() const;
 
+        /**
+         * @return if this tensor, or any field of it, does not own its memory
+         */
+        bool is_weak() const;
+
         bool has_shape(const Shape &shape) const;
 
         bool has_shape(const std::initializer_list<int> &shape) const {
diff --git a/include/core/threadsafe/smart.h b/include/core/threadsafe/smart.h
index 58d11cd..61097d1 100644
--- a/include/core/threadsafe/smart.h
+++ b/include/core/threadsafe/smart.h
@@ -160,6 +160,10 @@ namespace ts {
             return std::move(strong_ptr);
         }
 
+        bool is_weak() const {
+            return m_mode == MANUALLY;
+        }
+
         int use_count() const {
             if (m_counted) return m_counted->use_count;
             return 0;
diff --git a/src/core/tensor.cpp b/src/core/tensor.cpp
index 925c014..3a4cd8d 100644
--- a/src/core/tensor.cpp
+++ b/src/core/tensor.cpp
@@ -458,6 +458,14 @@ namespace ts {
         return strong_tensor;
     }
 
+    bool Tensor::is_weak() const {
+        if (m_memory.is_weak()) return true;
+        for (size_t i = 0; i < m_fields.size(); ++i) {
+            if (m_fields.at(i).is_weak()) return true;
+        }
+        return false;
+    }
+
     bool Tensor::has_shape(const Shape &shape) const {
         auto &this_shape = this->sizes();
         if (this_shape.size() != shape.size()) return false;
diff --git a/src/runtime/workbench.cpp b/src/runtime/workbench.cpp
index 4b07543..1dbc79c 100644
--- a/src/runtime/workbench.cpp
+++ b/src/runtime/workbench.cpp
@@ -523,7 +523,9 @@ namespace ts {
 
         std::vector<Tensor> outputs;
         for (int i = 0; i < return_count; ++i) {
-            outputs.emplace_back(*this->m_stack->index(i));
+            auto &output = *this->m_stack->index(i);
+            // constants are owned by the program, outputs must not depend on its lifetime
+            outputs.emplace_back(output.is_weak() ? output.clone(this->m_dynamic_memory) : output);
         }
 
         return std::move(outputs);
-- 
2.43.0


From 5477a7f25ec6ba09521f88dad17db9dd8679d3fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:11 +0000
Subject: [PATCH 11/86] fix: tensor shapes longer than their capacity are
 rejected instead of overflowing

---
 include/utils/otl.h | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/include/utils/otl.h b/include/utils/otl.h
index cef9c49..f5a0551 100644
--- a/include/utils/otl.h
+++ b/include/utils/otl.h
@@ -279,15 +279,19 @@ namespace ts {
 
             // fill
             explicit vector (size_type n)
-                : m_size(S(n)) {}
+                : m_size(S(n)) {
+                _check_capacity(n);
+            }
 
             vector(size_type n, const value_type& val)
                 : m_size(S(n)) {
+                _check_capacity(n);
                 for (auto &slot : *this) slot = val;
             }
 
             vector(int n, const value_type& val)
                     : m_size(S(n)) {
+                _check_capacity(size_type(n));
                 for (auto &slot : *this) slot = val;
             }
 
@@ -296,8 +300,8 @@ namespace ts {
             vector(InputIterator first, InputIterator last) {
                 size_type n = 0;
                 for (auto it = first; it != last; ++it) {
-                    if (n > CAPACITY) {
-                        TS_LOG_ERROR << VectorOutOfRangeException::Message(N, int(n)) << eject;
+                    if (n >= CAPACITY) {
+                        TS_LOG_ERROR << VectorOutOfRangeException::Message(N, int(n + 1)) << eject;
                     }
                     m_buf[n] = *it;
                     ++n;
@@ -395,6 +399,7 @@ namespace ts {
             }
 
             void push_back(const T &val) {
+                _check_capacity(this->size() + 1);
                 m_buf[m_size] = val;
                 ++m_size;
             }
@@ -405,6 +410,7 @@ namespace ts {
 
             template <typename ...Args>
             void emplace_back(Args &&...args) {
+                _check_capacity(this->size() + 1);
                 new(m_buf + m_size) T(std::forward<Args>(args)...);
                 ++m_size;
             }
@@ -416,6 +422,12 @@ namespace ts {
             void reserve(size_type n) {}
 
         private:
+            static void _check_capacity(size_type n) {
+                if (n > CAPACITY) {
+                    TS_LOG_ERROR << VectorOutOfRangeException::Message(N, int(n)) << eject;
+                }
+            }
+
             size_type _pointer2index(const T*ptr) const {
                 return ptr < m_buf ? 0 : ptr - m_buf;
             }
@@ -428,9 +440,7 @@ namespace ts {
             }
 
             void _insert(size_type i, const T&val) {
-                if (i + 1 > this->capacity()) {
-                    TS_LOG_ERROR << VectorOutOfRangeException::Message(N, int(N)) << eject;
-                }
+                _check_capacity(this->size() + 1);
                 std::memmove(m_buf + i + 1, m_buf + i, sizeof(T) * (this->size() - i));
                 m_buf[i] = val;
                 m_size += 1;
@@ -438,9 +448,7 @@ namespace ts {
 
             template <size_t _N, typename _S>
             void _insert(size_type i, const vector<T, _N, _S> &vec) {
-                if (i + vec.size() > this->capacity()) {
-                    TS_LOG_ERROR << VectorOutOfRangeException::Message(N, int(N)) << eject;
-                }
+                _check_capacity(this->size() + vec.size());
                 std::memmove(m_buf + i + vec.size(), m_buf + i, sizeof(T) * (this->size() - i));
                 std::memcpy(m_buf + i, vec.data(), sizeof(T) * (vec.size()));
                 m_size += S(vec.size());
-- 
2.43.0


From 32aea36d209db6592d8526485c5657c16d3315e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:11 +0000
Subject: [PATCH 12/86] fix: flatten rejects a dimension below its range

---
 src/backend/base/base_flatten.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/backend/base/base_flatten.cpp b/src/backend/base/base_flatten.cpp
index a06c69f..12f4d5e 100644
--- a/src/backend/base/base_flatten.cpp
+++ b/src/backend/base/base_flatten.cpp
@@ -23,6 +23,7 @@ namespace ts {
         Shape Flatten::newshape(const Tensor &x) {
             auto fixed_dim = m_dim;
             if (fixed_dim < 0) fixed_dim += int(x.dims());
+            TS_AUTO_CHECK(fixed_dim >= 0);
             auto need_size = size_t(fixed_dim + 1);
             auto x_size = x.sizes().size();
             if (need_size < x_size) {
-- 
2.43.0


From e4326eafd6a9fe3a0cd850a94aa7e555d4ff8a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:11 +0000
Subject: [PATCH 13/86] fix: squeeze takes its axes in any order

---
 src/kernels/cpu/squeeze.cpp | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/src/kernels/cpu/squeeze.cpp b/src/kernels/cpu/squeeze.cpp
index a9a8bc1..23ec808 100644
--- a/src/kernels/cpu/squeeze.cpp
+++ b/src/kernels/cpu/squeeze.cpp
@@ -35,20 +35,18 @@ namespace ts {
                         }
                     }
                 } else {
-                    for (auto axis_it = m_axes.rbegin(); axis_it != m_axes.rend(); ++axis_it) {
-                        auto axis = *axis_it;
-                        auto max_axis = int(shape.size());
-                        axis = axis >= 0 ? axis : (max_axis + axis);
-                        if (axis < 0 || axis >= max_axis) {
+                    auto dims = int(shape.size());
+                    std::vector<bool> squeezed(dims, false);
+                    for (auto axis : m_axes) {
+                        auto fixed_axis = axis >= 0 ? axis : (dims + axis);
+                        if (fixed_axis < 0 || fixed_axis >= dims || shape[fixed_axis] != 1) {
                             TS_LOG_ERROR << "Can not squeeze shape " << to_string(x.sizes())
                                          << " with axes=" << to_string(m_axes) << eject;
                         }
-                        auto it = shape.begin() + axis;
-                        if (*it != 1) {
-                            TS_LOG_ERROR << "Can not squeeze shape " << to_string(x.sizes())
-                                         << " with axes=" << to_string(m_axes) << eject;
-                        }
-                        shape.erase(it);
+                        squeezed[fixed_axis] = true;
+                    }
+                    for (int i = dims - 1; i >= 0; --i) {
+                        if (squeezed[i]) shape.erase(shape.begin() + i);
                     }
                 }
                 return std::move(shape);
-- 
2.43.0


From 6d9d281d84191818a0b0c9d14fa4af51ccd743da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:11 +0000
Subject: [PATCH 14/86] fix: unsqueeze accepts the first negative position

---
 src/backend/base/base_unsqueeze.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/backend/base/base_unsqueeze.cpp b/src/backend/base/base_unsqueeze.cpp
index ede2ee7..c85a489 100644
--- a/src/backend/base/base_unsqueeze.cpp
+++ b/src/backend/base/base_unsqueeze.cpp
@@ -34,7 +34,7 @@ namespace ts {
 
             for (auto axis : m_axes) {
                 auto max_axis = int32_t(shape.size());
-                if (axis > max_axis || axis < -max_axis) {
+                if (axis > max_axis || axis < -max_axis - 1) {
                     TS_LOG_ERROR << op() << " do not support unsqueeze shape=" << to_string(x.sizes())
                                  << " with axes=" << to_string(m_axes) << eject;
                 }
-- 
2.43.0


From 5ebc2e8bf385ce08dc0482fb2c3b5eb1ca3fb8ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:11 +0000
Subject: [PATCH 15/86] fix: transpose swaps the last two dimensions by default

---
 src/backend/base/base_transpose.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/backend/base/base_transpose.cpp b/src/backend/base/base_transpose.cpp
index 4fc553d..5a824a4 100644
--- a/src/backend/base/base_transpose.cpp
+++ b/src/backend/base/base_transpose.cpp
@@ -61,8 +61,7 @@ namespace ts {
                 permute[i] = int(i);
             }
             if (permute.size() >= 2) {
-                permute[permute.size() - 2] = permute[permute.size() - 1];
-                permute[permute.size() - 1] = permute[permute.size() - 2];
+                std::swap(permute[permute.size() - 2], permute[permute.size() - 1]);
             }
             return std::move(permute);
         }
-- 
2.43.0


From 3e328f20888c6a226d327537231c0e15fb98eeec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:11 +0000
Subject: [PATCH 16/86] fix: dimshuffle checks its dimension before using it

---
 src/backend/base/base_dimshuffle.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/backend/base/base_dimshuffle.cpp b/src/backend/base/base_dimshuffle.cpp
index 7a9d5dd..a32d86a 100644
--- a/src/backend/base/base_dimshuffle.cpp
+++ b/src/backend/base/base_dimshuffle.cpp
@@ -42,10 +42,11 @@ namespace ts {
             TS_AUTO_CHECK(input_num == 1);
 
             auto x = stack[0];
-            auto dim_size = x.size(m_dim);
 
             TS_AUTO_CHECK(m_dim < x.dims());
 
+            auto dim_size = x.size(m_dim);
+
             for (auto &i : m_shuffle) {
                 if (i >= dim_size) {
                     TS_LOG_ERROR << "Unsupported x.shape = " << to_string(x.sizes())
-- 
2.43.0


From 814496b349bcf7940d0086891ebc95f1cc573993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:11 +0000
Subject: [PATCH 17/86] fix: slices reject a zero step, sizes that overflow and
 unnormalised axes

---
 src/backend/base/base_slice.cpp         |  2 +-
 src/backend/base/base_slice_v2.cpp      |  2 +-
 src/backend/base/base_slice_v3.cpp      | 11 ++++++-----
 src/backend/base/base_strided_slice.cpp |  8 +++-----
 4 files changed, 11 insertions(+), 12 deletions(-)

diff --git a/src/backend/base/base_slice.cpp b/src/backend/base/base_slice.cpp
index ce24cf2..d88424d 100644
--- a/src/backend/base/base_slice.cpp
+++ b/src/backend/base/base_slice.cpp
@@ -56,7 +56,7 @@ namespace ts {
                     dim = x_shape[i] - begins[i];
                 }
 
-                TS_AUTO_CHECK(begins[i] + dim <= x_shape[i]);
+                TS_AUTO_CHECK(dim <= x_shape[i] - begins[i]);
                 out_shape[i] = dim;
             }
 
diff --git a/src/backend/base/base_slice_v2.cpp b/src/backend/base/base_slice_v2.cpp
index a46f73b..1795189 100644
--- a/src/backend/base/base_slice_v2.cpp
+++ b/src/backend/base/base_slice_v2.cpp
@@ -33,7 +33,7 @@ namespace ts {
                     dim = x_shape[i] - begins[i];
                 }
 
-                TS_AUTO_CHECK(begins[i] + dim <= x_shape[i]);
+                TS_AUTO_CHECK(dim <= x_shape[i] - begins[i]);
                 out_shape[i] = dim;
             }
 
diff --git a/src/backend/base/base_slice_v3.cpp b/src/backend/base/base_slice_v3.cpp
index 0550c06..191555d 100644
--- a/src/backend/base/base_slice_v3.cpp
+++ b/src/backend/base/base_slice_v3.cpp
@@ -23,6 +23,7 @@ namespace ts {
         }
 
         static int infer_output(int x, int &begin, int &end, int stride, bool begin_flag, bool end_flag) {
+            if (stride == 0) TS_LOG_ERROR << "slice step can not be zero" << eject;
             // begin \in [0, x)
             // end \in [-1, x]
             if (begin_flag) {
@@ -47,18 +48,15 @@ namespace ts {
                     else if (end < 0) end += x;
                 } else {
                     if (end > x) return 0;     // no elements
-                    else if (end <= -x) end = -1;
+                    else if (end < -x) end = -1;
                     else if (end < 0) end += x;
                 }
             }
 
             if (stride > 0) {
                 return begin < end ? (end - begin - 1) / stride + 1 : 0;
-            } else if (stride < 0) {
-                return begin > end ? (begin - end - 1) / -stride + 1 : 0;
             } else {
-                TS_LOG_ERROR << "slice step cant not be zero";
-                return 0;
+                return begin > end ? (begin - end - 1) / -stride + 1 : 0;
             }
         }
 
@@ -350,6 +348,7 @@ namespace ts {
                     axes[i] = i;
                 }
             }
+            TS_AUTO_CHECK(ends.size() == starts.size());
             TS_AUTO_CHECK(axes.size() == starts.size());
 
             Shape steps;
@@ -358,6 +357,7 @@ namespace ts {
             } else {
                 steps = Shape(slice_size, 1);
             }
+            TS_AUTO_CHECK(steps.size() == starts.size());
 
             int32_t max_axis = INT32_MIN;
             int32_t pre_axis = INT32_MIN;
@@ -369,6 +369,7 @@ namespace ts {
                                  << eject;
                 }
                 if (axis < 0) axis += dims;
+                axes[i] = axis;
                 if (axis <= pre_axis) {
                     TS_LOG_ERROR << "axes must in increasing rank, bug got " << to_string(axes) << eject;
                 }
diff --git a/src/backend/base/base_strided_slice.cpp b/src/backend/base/base_strided_slice.cpp
index e6b5537..8533e35 100644
--- a/src/backend/base/base_strided_slice.cpp
+++ b/src/backend/base/base_strided_slice.cpp
@@ -47,6 +47,7 @@ namespace ts {
         }
 
         int infer_output(int x, int &begin, int &end, int stride, bool begin_flag, bool end_flag) {
+            if (stride == 0) TS_LOG_ERROR << "slice step can not be zero" << eject;
             // begin \in [0, x)
             // end \in [-1, x]
             if (begin_flag) {
@@ -71,18 +72,15 @@ namespace ts {
                     else if (end < 0) end += x;
                 } else {
                     if (end > x) return 0;     // no elements
-                    else if (end <= -x) end = -1;
+                    else if (end < -x) end = -1;
                     else if (end < 0) end += x;
                 }
             }
 
             if (stride > 0) {
                 return begin < end ? (end - begin - 1) / stride + 1 : 0;
-            } else if (stride < 0) {
-                return begin > end ? (begin - end - 1) / -stride + 1 : 0;
             } else {
-                TS_LOG_ERROR << "slice step cant not be zero";
-                return 0;
+                return begin > end ? (begin - end - 1) / -stride + 1 : 0;
             }
         }
 
-- 
2.43.0


From d81119b315b1a0b0ffaa621f0b9e01aaa1aad1da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:11 +0000
Subject: [PATCH 18/86] fix: chunk reports the number of results it gives,
 split checks its sizes

---
 src/backend/base/base_chunk.cpp | 6 +++---
 src/backend/base/base_split.cpp | 7 +++++++
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/backend/base/base_chunk.cpp b/src/backend/base/base_chunk.cpp
index d733646..ed5c258 100644
--- a/src/backend/base/base_chunk.cpp
+++ b/src/backend/base/base_chunk.cpp
@@ -46,9 +46,9 @@ namespace ts {
 
             auto bins = split_bins(0, dim_size, m_chunks);
 
-            output.resize(m_chunks);
+            output.resize(bins.size());
 
-            for (int i = 0; i < m_chunks; ++i) {
+            for (size_t i = 0; i < bins.size(); ++i) {
                 DTYPE proto_dtype = x.dtype();
                 Shape proto_shape = x.sizes();
                 proto_shape[fixed_dim] = bins[i].second - bins[i].first;
@@ -60,7 +60,7 @@ namespace ts {
 
         int Chunk::infer(Stack &stack, std::vector<Tensor::Prototype> &output) {
             infer_return_dim(stack, m_chunks, m_dim, output);
-            return m_chunks;
+            return int(output.size());
         }
 
         int Chunk::run(Stack &stack) {
diff --git a/src/backend/base/base_split.cpp b/src/backend/base/base_split.cpp
index e39c712..efb087a 100644
--- a/src/backend/base/base_split.cpp
+++ b/src/backend/base/base_split.cpp
@@ -25,6 +25,13 @@ namespace ts {
 
             TS_AUTO_CHECK((dim >= 0) && (dim < int(x_shape.size())));
 
+            int sum = 0;
+            for (auto size : split) {
+                TS_AUTO_CHECK(size >= 0 && size <= x_shape[dim] - sum);
+                sum += size;
+            }
+            TS_AUTO_CHECK(sum == x_shape[dim]);
+
             std::vector<Tensor::Prototype> shapes;
             for (auto size : split) {
                 auto shape = x_shape;
-- 
2.43.0


From e043519d31d11be921fa2fefa0ecb2077c474309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:11 +0000
Subject: [PATCH 19/86] fix: gather operators check their indices and leave
 their inputs alone

---
 src/backend/base/base_gather.cpp          | 13 ++++++-------
 src/backend/base/base_gather_elements.cpp | 13 +++++++++----
 src/backend/base/base_gatherv2.cpp        |  9 +++++++++
 src/kernels/cpu/gather_elements.cpp       | 16 ++++++++++------
 4 files changed, 34 insertions(+), 17 deletions(-)

diff --git a/src/backend/base/base_gather.cpp b/src/backend/base/base_gather.cpp
index 907ae82..8d831de 100644
--- a/src/backend/base/base_gather.cpp
+++ b/src/backend/base/base_gather.cpp
@@ -54,25 +54,24 @@ namespace ts {
         int Gather::run(Stack &stack) {
             TS_AUTO_CHECK(stack.size() == 2);
 
-            auto indices =  tensor::cast(INT32, stack[1]);
+            auto indices =  tensor::cast(INT32, stack[1]).clone();
             auto output_proto = infer_gather(stack[0], indices, m_axis);
 
             auto memory_device = running_memory_device();
             auto x = stack[0].view(memory_device);
 
             auto& indices_viewed = indices;
+            auto positive_axis = m_axis >= 0 ? m_axis : int(x.dims()) + m_axis;
+            auto axis_size = x.size(positive_axis);
             for (int i = 0; i < indices_viewed.count(); ++i) {
-
-                indices_viewed.data<int32_t>()[i] = indices_viewed.data<int32_t>()[i] < 0 ?
-                                                    indices_viewed.data<int32_t>()[i] + x.size(m_axis) :
-                                                    indices_viewed.data<int32_t>()[i];
+                auto &index = indices_viewed.data<int32_t>()[i];
+                TS_AUTO_CHECK(index >= -axis_size && index < axis_size);
+                if (index < 0) index += axis_size;
             }
             indices_viewed = indices_viewed.view(memory_device);
 
             auto &out = *stack.push(output_proto, memory_device);
 
-            auto positive_axis = m_axis >= 0 ? m_axis : int(x.dims()) + m_axis;
-
             gather(x, indices_viewed, positive_axis, out);
 
             return 1;
diff --git a/src/backend/base/base_gather_elements.cpp b/src/backend/base/base_gather_elements.cpp
index 1dc0c3b..49e9ffe 100644
--- a/src/backend/base/base_gather_elements.cpp
+++ b/src/backend/base/base_gather_elements.cpp
@@ -23,6 +23,11 @@ namespace ts {
 
             TS_AUTO_CHECK(x.dims() >= 1);
             TS_AUTO_CHECK(axis >= -dims && axis < dims);
+            TS_AUTO_CHECK(indices.dims() == x.dims());
+            if (axis < 0) axis += dims;
+            for (int i = 0; i < dims; ++i) {
+                TS_AUTO_CHECK(i == axis || indices.size(i) == x.size(i));
+            }
 
             return Tensor::Prototype(x.dtype(), indices.sizes());
         }
@@ -42,7 +47,7 @@ namespace ts {
         int GatherElements::run(Stack &stack) {
             TS_AUTO_CHECK(stack.size() == 2);
 
-            auto indices =  tensor::cast(INT32, stack[1]);
+            auto indices =  tensor::cast(INT32, stack[1]).clone();
             auto output_proto = infer_gather(stack[0], indices, m_axis);
 
             auto memory_device = running_memory_device();
@@ -51,17 +56,17 @@ namespace ts {
             auto& indices_viewed = indices;
             auto N = indices_viewed.count();
             auto indices_data = indices_viewed.data<int32_t>();
-            auto indices_limit = x.size(m_axis);
+            auto positive_axis = m_axis >= 0 ? m_axis : int(x.dims()) + m_axis;
+            auto indices_limit = x.size(positive_axis);
             for (int i = 0; i < N; ++i) {
                 auto v = indices_data[i];
+                TS_AUTO_CHECK(v >= -indices_limit && v < indices_limit);
                 indices_data[i] = v < 0 ? v + indices_limit : v;
             }
             indices_viewed = indices_viewed.view(memory_device);
 
             auto &out = *stack.push(output_proto, memory_device);
 
-            auto positive_axis = m_axis >= 0 ? m_axis : int(x.dims()) + m_axis;
-
             gather(x, indices_viewed, positive_axis, out);
 
             return 1;
diff --git a/src/backend/base/base_gatherv2.cpp b/src/backend/base/base_gatherv2.cpp
index 7ea6f3b..ca48b2d 100644
--- a/src/backend/base/base_gatherv2.cpp
+++ b/src/backend/base/base_gatherv2.cpp
@@ -58,6 +58,15 @@ namespace ts {
             TS_AUTO_CHECK(indices.dtype() == INT32);
             auto output_proto = infer_gather(stack[0], indices);
 
+            {
+                auto cpu_indices = tensor::cast(INT32, stack[1]);
+                auto axis = indices.size(int(indices.dims()) - 1);
+                for (int i = 0; i < cpu_indices.count(); ++i) {
+                    auto index = cpu_indices.data<int32_t>(size_t(i));
+                    TS_AUTO_CHECK(index >= 0 && index < x.size(i % axis));
+                }
+            }
+
             auto &out = *stack.push(output_proto, memory_device);
 
             gather(x, indices, out);
diff --git a/src/kernels/cpu/gather_elements.cpp b/src/kernels/cpu/gather_elements.cpp
index a15584b..8797d79 100644
--- a/src/kernels/cpu/gather_elements.cpp
+++ b/src/kernels/cpu/gather_elements.cpp
@@ -29,20 +29,22 @@ namespace ts {
                                          std::multiplies<int>());
 
             HypeShape norm_x_shape({number, x_shape[axis], width});
-            HypeShape norm_out_shape({number, width});
+            HypeShape norm_out_shape({number, out.size(axis), width});
 
             auto x_data = x.data<T>();
             auto out_data = out.data<T>();
             auto indices_data = indices.data<int32_t>();
 
             std::vector<int> norm_x_coord = {0, 0, 0};
-            std::vector<int> norm_out_coord {0, 0};
+            std::vector<int> norm_out_coord {0, 0, 0};
 
             for (int n = 0; n < number; ++n) {
                 norm_out_coord[0] = n;
                 norm_x_coord[0] = n;
+                for (int k = 0; k < out.size(axis); ++k)
                 for (int i = 0; i < width; ++i) {
-                    norm_out_coord[1] = i;
+                    norm_out_coord[1] = k;
+                    norm_out_coord[2] = i;
                     norm_x_coord[2] = i;
 
                     auto out_index = norm_out_shape.to_index(norm_out_coord);
@@ -91,7 +93,7 @@ namespace ts {
             auto width = std::accumulate(x_shape.begin() + axis + 1, x_shape.end(), 1, std::multiplies<int>());
 
             HypeShape norm_x_shape({number, x_shape[axis], width});
-            HypeShape norm_out_shape({number, width});
+            HypeShape norm_out_shape({number, out.size(axis), width});
 
             auto bytes = x.proto().type_bytes();
 
@@ -100,13 +102,15 @@ namespace ts {
             auto indices_data = indices.data<int32_t>();
 
             std::vector<int> norm_x_coord = {0, 0, 0};
-            std::vector<int> norm_out_coord {0, 0};
+            std::vector<int> norm_out_coord {0, 0, 0};
 
             for (int n = 0; n < number; ++n) {
                 norm_out_coord[0] = n;
                 norm_x_coord[0] = n;
+                for (int k = 0; k < out.size(axis); ++k)
                 for (int i = 0; i < width; ++i) {
-                    norm_out_coord[1] = i;
+                    norm_out_coord[1] = k;
+                    norm_out_coord[2] = i;
                     norm_x_coord[2] = i;
 
                     auto out_index = norm_out_shape.to_index(norm_out_coord);
-- 
2.43.0


From c478b6f9c5fcc3952176f512b6ff63679e11938e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:11 +0000
Subject: [PATCH 20/86] fix: scatter_nd checks shapes and indices and leaves
 its inputs alone

---
 src/backend/base/base_scatter_nd.cpp | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/backend/base/base_scatter_nd.cpp b/src/backend/base/base_scatter_nd.cpp
index e9a82ba..6ac5d5d 100644
--- a/src/backend/base/base_scatter_nd.cpp
+++ b/src/backend/base/base_scatter_nd.cpp
@@ -1,4 +1,5 @@
 #include "backend/base/base_scatter_nd.h"
+#include "core/tensor_builder.h"
 
 namespace ts {
     namespace base {
@@ -12,13 +13,27 @@ namespace ts {
         int ScatterND::run(Stack &stack) {
             TS_AUTO_CHECK(stack.size() == 3);
 
-            auto &data = stack[0];
-            auto &indices = stack[1];
-            auto &updates = stack[2];
+            auto data = stack[0];
+            auto indices = stack[1];
+            auto updates = stack[2];
 
             TS_CHECK(indices.dtype() == INT32) << "Indices should be int32, but got " << type_str(indices.dtype()) << eject;
             TS_CHECK(data.dtype() == updates.dtype()) << "Datatype must be same." << eject;
 
+            // one row of data is updated for each row of indices
+            TS_AUTO_CHECK(data.dims() >= 1);
+            TS_AUTO_CHECK(indices.has_shape({-1, 1}));
+            auto updates_shape = data.sizes();
+            updates_shape[0] = indices.size(0);
+            TS_AUTO_CHECK(updates.sizes() == updates_shape);
+            {
+                auto cpu_indices = tensor::cast(INT32, indices);
+                for (int i = 0; i < cpu_indices.count(); ++i) {
+                    auto index = cpu_indices.data<int32_t>(size_t(i));
+                    TS_AUTO_CHECK(index >= 0 && index < data.size(0));
+                }
+            }
+
             std::vector<Tensor::Prototype> output;
             infer(stack, output);
 
-- 
2.43.0


From 5495bc4e8e5034c8e84de186bd726405ae8eaf02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:11 +0000
Subject: [PATCH 21/86] fix: crop_nd announces the size it produces and checks
 the rank

---
 src/backend/zoo/crop_nd.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/backend/zoo/crop_nd.cpp b/src/backend/zoo/crop_nd.cpp
index fbafb5d..115b1d6 100644
--- a/src/backend/zoo/crop_nd.cpp
+++ b/src/backend/zoo/crop_nd.cpp
@@ -47,6 +47,11 @@ namespace ts {
             auto &size = stack[1];
             auto shape = tensor::array::to_int(size);
 
+            TS_AUTO_CHECK(shape.size() == x.dims());
+            for (size_t i = 0; i < shape.size(); ++i) {
+                if (shape[i] <= 0) shape[i] = x.size(i);
+            }
+
             output.resize(1);
             output[0] = Tensor::Prototype(x.dtype(), shape);
 
-- 
2.43.0


From 1d42a85fd6ee027a87cda75241b3b93513ebf3c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:11 +0000
Subject: [PATCH 22/86] fix: cropping again uses the given axis

---
 src/kernels/cpu/crop_to.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/kernels/cpu/crop_to.cpp b/src/kernels/cpu/crop_to.cpp
index 7d1a6e3..0684c13 100644
--- a/src/kernels/cpu/crop_to.cpp
+++ b/src/kernels/cpu/crop_to.cpp
@@ -69,7 +69,7 @@ namespace ts {
 
             TS_AUTO_CHECK(x.dims() == y.dims());
 
-            auto axis = m_axis >= 0 ? m_axis : m_axis += x.dims();
+            auto axis = m_axis >= 0 ? m_axis : m_axis + int(x.dims());
 
             if (axis < 0 || axis >= x.dims()) {
                 TS_LOG_ERROR << "Crop axis must in [-"
@@ -98,7 +98,7 @@ namespace ts {
 
             TS_AUTO_CHECK(x.dims() == y.dims());
 
-            auto axis = m_axis >= 0 ? m_axis : m_axis += x.dims();
+            auto axis = m_axis >= 0 ? m_axis : m_axis + int(x.dims());
 
             if (axis < 0 || axis >= x.dims()) {
                 TS_LOG_ERROR << "Stack axis must in [-"
-- 
2.43.0


From d111512dcae7f7efe6b62f00dcf5efa2685a28f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:11 +0000
Subject: [PATCH 23/86] fix: padding handles negative batch padding

---
 src/kernels/cpu/pad2d_algorithm.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/kernels/cpu/pad2d_algorithm.cpp b/src/kernels/cpu/pad2d_algorithm.cpp
index ae646ed..b8db785 100644
--- a/src/kernels/cpu/pad2d_algorithm.cpp
+++ b/src/kernels/cpu/pad2d_algorithm.cpp
@@ -32,6 +32,8 @@ namespace ts{
             int out_dim1_offset = out_dim2 * out_tile;
             int out_num_offset = out_dim1 * out_dim1_offset;
 
+            num = padding[0][0] < 0 ? num + padding[0][0] : num;
+            num = padding[0][1] < 0 ? num + padding[0][1] : num;
             int dim1 = padding[1][0] < 0 ? input_dim1 + padding[1][0] : input_dim1;
             dim1 = padding[1][1] < 0 ? dim1 + padding[1][1] : dim1;
             int dim2 = padding[2][0] < 0 ? input_dim2 + padding[2][0] : input_dim2;
-- 
2.43.0


From 1e2a2680753202fcfbaf8818c870568e3cda846b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:11 +0000
Subject: [PATCH 24/86] fix: range rejects a zero step and counts down

---
 src/kernels/cpu/range.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/kernels/cpu/range.cpp b/src/kernels/cpu/range.cpp
index b791f4f..98556f6 100644
--- a/src/kernels/cpu/range.cpp
+++ b/src/kernels/cpu/range.cpp
@@ -21,9 +21,12 @@ namespace ts {
             T limit = limit_tensor.data<T>()[0];
             T delta = delta_tensor.data<T>()[0];
 
+            TS_AUTO_CHECK(delta != 0);
+            if (delta > 0 ? start >= limit : start <= limit) return 0;
+
             steps = int((limit - start) / delta);
-           
-            if(steps * delta + start  < limit)  {
+
+            if (delta > 0 ? steps * delta + start < limit : steps * delta + start > limit) {
                 steps++;
             }
             return steps;
-- 
2.43.0


From 332ea78059652962001646d4d6200e22a53e1894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:11 +0000
Subject: [PATCH 25/86] fix: static shape inference of flatten, transpose,
 squeeze, unsqueeze, stack, slice, expand, concat, divided and
 constant_of_shape agrees with execution

---
 src/runtime/inferer/factory.cpp | 91 ++++++++++++++++++++-------------
 1 file changed, 56 insertions(+), 35 deletions(-)

diff --git a/src/runtime/inferer/factory.cpp b/src/runtime/inferer/factory.cpp
index 3d2a286..dcff8ea 100644
--- a/src/runtime/inferer/factory.cpp
+++ b/src/runtime/inferer/factory.cpp
@@ -14,7 +14,6 @@
 #include <global/operator_factory.h>
 
 #include "runtime/stack.h"
-#include <numeric>
 
 namespace ts {
     namespace infer_factory {
@@ -120,6 +119,7 @@ namespace ts {
                     tmp.push_back(int32_t(i));
                 }
                 std::swap(tmp[tmp.size() - 1], tmp[tmp.size() - 2]);
+                permute = std::move(tmp);
             }
 
             auto x_shape = x.sizes();
@@ -129,7 +129,7 @@ namespace ts {
             auto y_shape = std::vector<int32_t>(permute.size());
 
             for (size_t i = 0; i < permute.size(); ++i) {
-                if (permute[i] >= x_shape.size()) return VOID;
+                if (permute[i] < 0 || permute[i] >= int(x_shape.size())) return VOID;
                 y_shape[i] = x_shape[permute[i]];
             }
 
@@ -317,11 +317,23 @@ namespace ts {
         TS_STATIC_ACTION(ShapeInferer::Register, "mul", _eltwise)
         TS_STATIC_ACTION(ShapeInferer::Register, "div", _eltwise)
 
+        // product of dimensions, -1 if one of them is unknown
+        template <typename Iterator>
+        static int32_t product(Iterator first, Iterator last) {
+            int32_t result = 1;
+            for (auto it = first; it != last; ++it) {
+                if (*it < 0) return -1;
+                result *= *it;
+            }
+            return result;
+        }
+
         static TensorPrototype flatten(const Node &node, const std::vector<TensorPrototype> &inputs) {
             auto &x = inputs[0];
 
             auto dim = node->has("dim") ? node->get_int("dim") : 1;
             if (dim < 0) dim += int32_t(x.dims());
+            if (dim < 0) return VOID;
 
             std::vector<int> y_shape;
 
@@ -330,7 +342,7 @@ namespace ts {
             if (need_size < x_size) {
                 auto &size = x.sizes();
                 std::vector<int> shape(size.begin(), size.begin() + need_size);
-                shape.back() = std::accumulate(size.begin() + dim, size.end(), 1, std::multiplies<int>());
+                shape.back() = product(size.begin() + dim, size.end());
                 y_shape = std::move(shape);
             } else if (need_size > x_size) {
                 std::vector<int> ones(need_size - x_size, 1);
@@ -356,12 +368,12 @@ namespace ts {
             std::vector<int> y_shape;
 
             if (dim <= 0) {
-                y_shape = {1, std::accumulate(size.begin(), size.end(), 1, std::multiplies<int>())};
+                y_shape = {1, product(size.begin(), size.end())};
             } else if (dim >= x.dims()) {
-                y_shape = {std::accumulate(size.begin(), size.end(), 1, std::multiplies<int>()), 1};
+                y_shape = {product(size.begin(), size.end()), 1};
             } else {
-                y_shape = {std::accumulate(size.begin(), size.begin() + dim, 1, std::multiplies<int>()),
-                           std::accumulate(size.begin() +  dim, size.end(), 1, std::multiplies<int>())};
+                y_shape = {product(size.begin(), size.begin() + dim),
+                           product(size.begin() +  dim, size.end())};
             }
 
             return {x.dtype(), y_shape};
@@ -626,7 +638,7 @@ namespace ts {
 
             for (size_t i = 1; i < inputs.size(); ++i) {
                 auto inc = inputs[i].size(dim);
-                if (inc < 0) {
+                if (inc < 0 || shape[dim] < 0) {
                     shape[dim] = -1;
                     break;
                 }
@@ -698,24 +710,31 @@ namespace ts {
             if (node->has("front")) front = node->get_int("front");
             if (node->has("end")) end = node->get_int("end");
             if (node->has("inverse")) inverse = node->get_bool("inverse");
+            if (front < 0) front = int32_t(dims);
+            if (end < 0) end = int32_t(dims);
 
             auto y = x.sizes();
 
             if (!inverse) {
                 while (y.size() < dims && front > 0) {
                     y.insert(y.begin(), 1);
+                    --front;
                 }
                 while (y.size() < dims && end > 0) {
                     y.insert(y.end(), 1);
+                    --end;
                 }
             } else {
                 while (y.size() < dims && end > 0) {
                     y.insert(y.end(), 1);
+                    --end;
                 }
                 while (y.size() < dims && front > 0) {
                     y.insert(y.begin(), 1);
+                    --front;
                 }
             }
+            if (y.size() != dims) return VOID;
 
             return {x.dtype(), y};
         }
@@ -862,7 +881,7 @@ namespace ts {
         TS_STATIC_ACTION(ShapeInferer::Register, "_reshape_v2", _reshape_v2)
 
         static TensorPrototype _shape(const Node &node, const std::vector<TensorPrototype> &inputs) {
-            {
+            if (product(inputs[0].sizes().begin(), inputs[0].sizes().end()) >= 0) {
                 auto &update_node = *const_cast<Node*>(&node);
                 auto shape = inputs[0].sizes();
                 update_node->set("#value", tensor::build<int32_t>(INT32, shape));
@@ -1370,7 +1389,7 @@ namespace ts {
             auto y_shape = x.sizes();
 
             for (size_t i = 0; i < x.dims(); ++i) {
-                if (size[i] == 1) continue;
+                if (size[i] == 1 || y_shape[i] < 0) continue;
                 y_shape[i] = int32_t(std::ceil(float(y_shape[i]) / size[i])) * size[i];
             }
 
@@ -1802,25 +1821,26 @@ namespace ts {
         static TensorPrototype squeeze(const Node &node, const std::vector<TensorPrototype> &inputs) {
             auto &x = inputs[0];
 
-            GET_NODE_INT_LIST_ATTR(axes)
+            TRY_GET_NODE_INT_LIST_ATTR(axes)
 
+            auto dims = int32_t(x.dims());
             auto y_shape = x.sizes();
 
+            std::vector<bool> squeezed(dims, false);
             if (axes.empty()) {
-                for (auto it = axes.begin(); it != axes.end(); ) {
-                    if (*it == 1) {
-                        it = axes.erase(it);
-                    } else {
-                        ++it;
-                    }
+                for (int32_t i = 0; i < dims; ++i) {
+                    if (y_shape[i] < 0) return VOID;
+                    squeezed[i] = y_shape[i] == 1;
                 }
             } else {
-                for (auto it = axes.rbegin(); it != axes.rend(); ++it) {
-                    auto axis = *it;
+                for (auto axis : axes) {
                     FIX_DIM(axis, x)
-                    y_shape.erase(y_shape.begin() + axis);
+                    squeezed[axis] = true;
                 }
             }
+            for (int32_t i = dims - 1; i >= 0; --i) {
+                if (squeezed[i]) y_shape.erase(y_shape.begin() + i);
+            }
 
             return {x.dtype(), y_shape};
         }
@@ -1836,7 +1856,7 @@ namespace ts {
 
             for (auto axis : axes) {
                 auto max_axis = int32_t(y_shape.size());
-                if (axis > max_axis || axis < -max_axis) {
+                if (axis > max_axis || axis < -max_axis - 1) {
                     return VOID;
                 }
                 if (axis >= 0) {
@@ -1855,15 +1875,14 @@ namespace ts {
             if (inputs.empty()) return VOID;
             auto &x = inputs[0];
 
-            GET_NODE_INT_ATTR(axis)
+            TRY_GET_NODE_INT_ATTR(axis, 0)
 
             auto y_shape = x.sizes();
+            auto max_axis = int32_t(y_shape.size());
+            if (axis < 0) axis += max_axis + 1;
+            if (axis < 0 || axis > max_axis) return VOID;
 
-            if (axis >= 0) {
-                y_shape.insert(y_shape.begin() + axis, int32_t(inputs.size()));
-            } else {
-                y_shape.insert(y_shape.end() + axis + 1, int32_t(inputs.size()));
-            }
+            y_shape.insert(y_shape.begin() + axis, int32_t(inputs.size()));
 
             return {x.dtype(), y_shape};
         }
@@ -2015,7 +2034,8 @@ namespace ts {
         static int infer_output(int x, int &begin, int &end, int stride, bool begin_flag, bool end_flag) {
             // begin \in [0, x)
             // end \in [-1, x]
-            if (x >= 0) {
+            if (x < 0) return -1;  // unknown
+            {
                 if (begin_flag) {
                     begin = stride > 0 ? 0 : x - 1;
                 } else {
@@ -2038,7 +2058,7 @@ namespace ts {
                         else if (end < 0) end += x;
                     } else {
                         if (end > x) return 0;     // no elements
-                        else if (end <= -x) end = -1;
+                        else if (end < -x) end = -1;
                         else if (end < 0) end += x;
                     }
                 }
@@ -2084,6 +2104,8 @@ namespace ts {
 
             for (size_t i = 0; i < N; ++i) {
                 auto dim = axes[i];
+                FIX_DIM(dim, x)
+                if (steps[i] == 0) return VOID;
 
                 y_shape[dim] = infer_output(
                         y_shape[dim],
@@ -2365,12 +2387,11 @@ namespace ts {
         static TensorPrototype constant_of_shape(const Node &node, const std::vector<TensorPrototype> &inputs) {
             if (inputs.size() != 1) return VOID;
 
-            if (node->has("value")) {
-                auto val_attr = node->get("value");
-                return {val_attr.dtype(), inputs[0].sizes()};
-            } else {
-                return {FLOAT32, inputs[0].sizes()};
-            }
+            GET_NODE_INT_LIST_INPUT(shape, 0)
+
+            auto dtype = node->has("value") ? node->get("value").dtype() : FLOAT32;
+
+            return {dtype, shape};
         }
 
         TS_STATIC_ACTION(ShapeInferer::Register, "constant_of_shape", constant_of_shape)
-- 
2.43.0


From 6f458686cf42cfba798e99a642f28d0c7a831722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:18 +0000
Subject: [PATCH 26/86] fix: mod keeps the order of its operands when the right
 one is the larger

---
 src/kernels/cpu/mod.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/kernels/cpu/mod.cpp b/src/kernels/cpu/mod.cpp
index bb80cfe..1e13316 100644
--- a/src/kernels/cpu/mod.cpp
+++ b/src/kernels/cpu/mod.cpp
@@ -218,11 +218,11 @@ namespace ts {
         }
 
         void Mod::reduce_with_bias_cross(const Tensor &lhs, const Tensor &rhs, Tensor &out, int dim) {
-            this->reduce_with_bias(rhs, lhs, out, dim);
+            this->reduce_with_broadcast(lhs, rhs, out);
         }
 
         void Mod::reduce_with_scalar_cross(const Tensor &lhs, const Tensor &rhs, Tensor &out) {
-            this->reduce_with_scalar(rhs, lhs, out);
+            this->reduce_with_broadcast(lhs, rhs, out);
         }
     }
 }
-- 
2.43.0


From 2a82262d952337e57a021c7f158b8a6d7ae12a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:18 +0000
Subject: [PATCH 27/86] fix: keep the helpers of mul and mod apart

---
 src/kernels/cpu/mod.cpp | 4 ++--
 src/kernels/cpu/mul.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/kernels/cpu/mod.cpp b/src/kernels/cpu/mod.cpp
index 1e13316..9056f2f 100644
--- a/src/kernels/cpu/mod.cpp
+++ b/src/kernels/cpu/mod.cpp
@@ -16,11 +16,11 @@
 namespace ts {
     namespace cpu {
         template <typename T>
-        inline void reduce_operator(T &x, T lhs, T rhs) {
+        static inline void reduce_operator(T &x, T lhs, T rhs) {
             x = lhs % rhs;
         }
         template <typename T>
-        inline void reduce_operator(T &x, T y) {
+        static inline void reduce_operator(T &x, T y) {
             x %= y;
         }
 
diff --git a/src/kernels/cpu/mul.cpp b/src/kernels/cpu/mul.cpp
index c2ceeca..e20c195 100644
--- a/src/kernels/cpu/mul.cpp
+++ b/src/kernels/cpu/mul.cpp
@@ -16,11 +16,11 @@
 namespace ts {
     namespace cpu {
         template <typename T>
-        inline void reduce_operator(T &x, T lhs, T rhs) {
+        static inline void reduce_operator(T &x, T lhs, T rhs) {
             x = lhs * rhs;
         }
         template <typename T>
-        inline void reduce_operator(T &x, T y) {
+        static inline void reduce_operator(T &x, T y) {
             x *= y;
         }
 
-- 
2.43.0


From 4df83e9d5b5c672bba5150e6eb29ca2262e452b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:18 +0000
Subject: [PATCH 28/86] fix: argmax dispatches on the type of its input

---
 src/kernels/cpu/argmax.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kernels/cpu/argmax.cpp b/src/kernels/cpu/argmax.cpp
index 1e7b26e..26b4a6d 100644
--- a/src/kernels/cpu/argmax.cpp
+++ b/src/kernels/cpu/argmax.cpp
@@ -53,7 +53,7 @@ namespace ts {
 
 
         void ArgMax::argmax(const Tensor &x, int dim, Tensor &out) {
-            DTYPE dtype = out.dtype();
+            DTYPE dtype = x.dtype();
            
             switch (dtype) {
 #define DECLARE_COMPUTE_RUN(DTYPE, TYPE) \
-- 
2.43.0


From cd21033abf921883c5a7ab2442898d3e5f81caf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:18 +0000
Subject: [PATCH 29/86] fix: softplus of other types than float32 reads every
 element

---
 src/kernels/cpu/softplus.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/kernels/cpu/softplus.cpp b/src/kernels/cpu/softplus.cpp
index 2a4662a..e3a061e 100644
--- a/src/kernels/cpu/softplus.cpp
+++ b/src/kernels/cpu/softplus.cpp
@@ -22,6 +22,7 @@ namespace ts {
             for (int i = 0; i < counts; i++) {
                 T val = *input_data;
                 *output_data = std::log(std::exp(val) + 1.);
+                input_data++;
                 output_data++;
             }
         }
-- 
2.43.0


From 46d85bfbdd4c90bd7f789e118da43973065e2b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:18 +0000
Subject: [PATCH 30/86] fix: l2_norm over an axis of size 1 divides by the norm

---
 src/kernels/cpu/l2_norm.cpp | 7 -------
 1 file changed, 7 deletions(-)

diff --git a/src/kernels/cpu/l2_norm.cpp b/src/kernels/cpu/l2_norm.cpp
index b546c82..a2a7de7 100644
--- a/src/kernels/cpu/l2_norm.cpp
+++ b/src/kernels/cpu/l2_norm.cpp
@@ -32,13 +32,6 @@ namespace ts {
 
             int body_num = output_shape[m_dim];
 
-            if (body_num == 1) {
-                T one(1);
-                memset(output_data, out.device(), out.count() * out.proto().type_bytes(),
-                       &one, Device(CPU), sizeof(T));
-                return;
-            }
-
             int head_num = 1;
             for (int i = 0; i < m_dim; i++) {
                 head_num *= output_shape[i];
-- 
2.43.0


From 0eb6b5964a0414b6390ae04d3e108e286a46c148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:18 +0000
Subject: [PATCH 31/86] fix: equal broadcasts operands of lower rank

---
 src/backend/base/base_equal.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/backend/base/base_equal.cpp b/src/backend/base/base_equal.cpp
index c217a08..efea230 100644
--- a/src/backend/base/base_equal.cpp
+++ b/src/backend/base/base_equal.cpp
@@ -43,8 +43,8 @@ namespace ts {
 
             auto memory_device = running_memory_device();
 
-            lhs = lhs.view(memory_device);
-            rhs = rhs.view(memory_device);
+            lhs = lhs.view(memory_device).reshape(lhs_shape);
+            rhs = rhs.view(memory_device).reshape(rhs_shape);
             auto &out = *stack.push(output[0], memory_device);
 
             if (!do_broadcast) {
-- 
2.43.0


From d410a99c0e6d0fd4a600dfc33bae1f9e23196243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:18 +0000
Subject: [PATCH 32/86] fix: non_max_suppression_v3 checks its inputs before
 running

---
 src/backend/base/base_non_max_suppression_v3.cpp | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/backend/base/base_non_max_suppression_v3.cpp b/src/backend/base/base_non_max_suppression_v3.cpp
index 6d3d290..fd57aff 100644
--- a/src/backend/base/base_non_max_suppression_v3.cpp
+++ b/src/backend/base/base_non_max_suppression_v3.cpp
@@ -43,6 +43,7 @@ namespace ts {
             TS_AUTO_CHECK(score_shape[0] == x_shape[0]);
 
             TS_AUTO_CHECK(x.dtype() == FLOAT32);
+            TS_AUTO_CHECK(score.dtype() == FLOAT32);
 
             Shape shape;
             shape.resize(1);
@@ -54,18 +55,14 @@ namespace ts {
         }
 
         int Non_Max_Suppression_V3::run(Stack &stack) {
-            TS_AUTO_CHECK(stack.size() == 2);
+            std::vector<Tensor::Prototype> output;
+            infer(stack, output);
 
             auto memory_device = running_memory_device();
             auto box = stack[0].view(memory_device);
             auto scores = stack[1].view(memory_device);
 
-            Shape shape;
-            shape.resize(1);
-            shape[0] = m_max_output_size;
-
-            auto output_proto = Tensor::Prototype(INT32, shape);
-            auto &out = *stack.push(output_proto, memory_device);
+            auto &out = *stack.push(output[0], memory_device);
             non_max_suppression_v3(box, scores, out);
 
             return 1;
-- 
2.43.0


From beeac2d47cda08682768858dae478dda4fc00681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:18 +0000
Subject: [PATCH 33/86] fix: reduce_mean normalises and checks its axes before
 using them

---
 src/backend/base/base_reduce_mean.cpp | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/src/backend/base/base_reduce_mean.cpp b/src/backend/base/base_reduce_mean.cpp
index b24aad3..399cb02 100644
--- a/src/backend/base/base_reduce_mean.cpp
+++ b/src/backend/base/base_reduce_mean.cpp
@@ -22,7 +22,7 @@ namespace ts {
             supper::init();
 
             m_dims.clear();
-            auto dims_tensor = this->get("dims");
+            auto dims_tensor = tensor::cast(INT32, this->get("dims"));
             int dims_dim = int(dims_tensor.dims());
             size_t dims_count = dims_dim == 0 ? 1 : (size_t)dims_tensor.size(0);
             m_dims.resize(dims_count);
@@ -47,17 +47,10 @@ namespace ts {
 
         static std::vector<int> checkout(Stack &stack, std::vector<int> dims, bool keep_dim, Shape &output) {
             TS_AUTO_CHECK(stack.size() == 1);
+            TS_AUTO_CHECK(dims.size() >= 1);
             Shape input = stack[0].sizes();
             auto has_dims = int(input.size());
 
-            bool continue_flag = true;
-            if(dims.size() > 1){
-                continue_flag = check_dims_continue(dims);
-            }
-
-            if(!continue_flag)
-                TS_LOG_ERROR << "Dimensions must be continuous now!" << eject;
-
             std::vector<int> fixed_dims(dims);
             for (int i = 0; i < fixed_dims.size(); ++i) {
                 fixed_dims[i] = dims[i] >= 0 ? dims[i] : has_dims + dims[i];
@@ -68,6 +61,9 @@ namespace ts {
                 }
             }
 
+            if(!check_dims_continue(fixed_dims))
+                TS_LOG_ERROR << "Dimensions must be continuous now!" << eject;
+
             if(keep_dim){
                 for (int i = 0; i < fixed_dims.size(); ++i) {
                     input[fixed_dims[i]] = 1;
@@ -92,7 +88,6 @@ namespace ts {
 
         int ReduceMean::infer(Stack &stack, std::vector<Tensor::Prototype> &output) {
             Shape output_shape;
-            TS_AUTO_CHECK(m_dims.size() >= 1);
             checkout(stack, m_dims, m_keep_dim, output_shape);
 
             output.resize(1);
-- 
2.43.0


From d82f352ad1422c24a79f1c7b9a8f3d3b6fd1a48f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:06 +0000
Subject: [PATCH 34/86] fix: static shape inference of element-wise operators,
 where, topkv2 and non_max_suppression_v3 agrees with execution

---
 src/runtime/inferer/factory.cpp | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/runtime/inferer/factory.cpp b/src/runtime/inferer/factory.cpp
index dcff8ea..e932b1b 100644
--- a/src/runtime/inferer/factory.cpp
+++ b/src/runtime/inferer/factory.cpp
@@ -291,6 +291,10 @@ namespace ts {
         }
 
         static TensorPrototype _eltwise(const Node &node, const std::vector<TensorPrototype> &inputs) {
+            if (inputs.size() != 2) return VOID;
+            // operands of different types are cast to a common one when running
+            if (inputs[0].dtype() != inputs[1].dtype()) return VOID;
+
             auto dtype = inputs[0].dtype();
 
             auto lhs_shape = inputs[0].sizes();
@@ -1509,9 +1513,7 @@ namespace ts {
 
             auto max_output_size = node->get_int("max_output_size");
 
-            auto K = std::min(scores.size(0), max_output_size);
-
-            return {INT32, {K,}};
+            return {INT32, {max_output_size,}};
         }
 
         TS_STATIC_ACTION(ShapeInferer::Register, "non_max_suppression_v3", non_max_suppression_v3)
@@ -1938,7 +1940,7 @@ namespace ts {
                 index = Tensor::Prototype(INT32, x.sizes());
             } else {
                 auto K = std::min(x.sizes().back(), number);
-                if (K < 0) K = number;
+                if (K < 0) K = -1;
                 auto y_shape = x.sizes();
                 y_shape.back() = K;
                 y = Tensor::Prototype(x.dtype(), y_shape);
@@ -2365,16 +2367,14 @@ namespace ts {
             auto out_shape = std::vector<int32_t>(dims, -1);
 
             for (size_t i = 0; i < dims; ++i) {
-                int size = cond_shape[i];
-                if (!(cond_shape[i] == lhs_shape[i] && cond_shape[i] == rhs_shape[i])) {
-                    // exception condition
-                    if ((cond_shape[i] != 1 && lhs_shape[i] != 1 && cond_shape[i] != lhs_shape[i]) ||
-                        (cond_shape[i] != 1 && rhs_shape[i] != 1 && cond_shape[i] != rhs_shape[i]) ||
-                        (lhs_shape[i] != 1 && rhs_shape[i] != 1 && lhs_shape[i] != rhs_shape[i])) {
-                        return VOID;
-                    }
-                    size = std::max((std::max(cond_shape[i], lhs_shape[i])), rhs_shape[i]);
+                // sizes below 0 are unknown
+                int sizes[] = {cond_shape[i], lhs_shape[i], rhs_shape[i]};
+                int size = 1;
+                for (int one : sizes) {
+                    if (one > 1 && size > 1 && one != size) return VOID;
+                    if (one > size) size = one;
                 }
+                if (size == 1 && (sizes[0] < 0 || sizes[1] < 0 || sizes[2] < 0)) size = -1;
                 out_shape[i] = size;
             }
 
-- 
2.43.0


From c2051a6a440c3c1435593fcd747b6bb7c11af050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:47 +0000
Subject: [PATCH 35/86] fix: compute the packed matrix product for types other
 than float

---
 src/kernels/cpu/math_cpu.cpp | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/src/kernels/cpu/math_cpu.cpp b/src/kernels/cpu/math_cpu.cpp
index 35bef3b..6e3ba49 100644
--- a/src/kernels/cpu/math_cpu.cpp
+++ b/src/kernels/cpu/math_cpu.cpp
@@ -379,7 +379,29 @@ namespace ts {
 
         template<typename T_IN, typename T_OUT>
         inline void kernel_8x8(int M, int K, int N, T_IN alpha, const T_IN *A, const T_IN *B, T_IN beta, T_OUT *C, int ldc) {
-
+            const int M_packed = (M >> 3) << 3;
+            const int N_packed = (N >> 3) << 3;
+#ifdef TS_USE_OPENMP
+#pragma omp parallel for num_threads(openmp_threads())
+#endif
+            for (int m = 0; m < M; m++) {
+                const bool A_in_pack = m < M_packed;
+                const T_IN *A_row = A_in_pack ? A + (m & ~7) * K + (m & 7) : A + m * K;
+                const int A_step = A_in_pack ? 8 : 1;
+                for (int n = 0; n < N; n++) {
+                    const bool B_in_pack = n < N_packed;
+                    const T_IN *A_at = A_row;
+                    const T_IN *B_at = B_in_pack ? B + (n & ~7) * K + (n & 7) : B + n * K;
+                    const int B_step = B_in_pack ? 8 : 1;
+                    T_OUT sum = 0;
+                    for (int k = 0; k < K; k++) {
+                        sum += T_OUT(*A_at) * T_OUT(*B_at);
+                        A_at += A_step;
+                        B_at += B_step;
+                    }
+                    C[m * ldc + n] = sum;
+                }
+            }
         }
 
         template<>
-- 
2.43.0


From 0c26bc881ed6827a2e58754202d4c758ecee84e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:31 +0000
Subject: [PATCH 36/86] fix: windowed operators reject kernels that do not fit
 and survive a failed initialisation

---
 include/backend/common_function.h              | 16 ++++++++++++++++
 src/backend/base/base_conv2d_transpose.cpp     |  4 ++++
 src/kernels/cpu/conv2d_v2.cpp                  | 12 ++++++++----
 src/kernels/cpu/conv2d_winograd_v2.cpp         | 12 ++++++++----
 src/kernels/cpu/depthwise_conv2d_algorithm.cpp | 10 ++++++----
 src/kernels/cpu/depthwise_conv2d_v2.cpp        | 12 ++++++++----
 6 files changed, 50 insertions(+), 16 deletions(-)

diff --git a/include/backend/common_function.h b/include/backend/common_function.h
index d954883..16b4ec2 100644
--- a/include/backend/common_function.h
+++ b/include/backend/common_function.h
@@ -7,15 +7,23 @@
 
 #include "common_structure.h"
 
+#include "utils/log.h"
+
 #include <algorithm>
 #include <cmath>
 
 namespace ts {
     inline Size2D pooling2d_forward(const Size2D &x, const Padding2D &padding, const KSize2D &ksize,
                                     const Stride2D &stride) {
+        if (ksize.height <= 0 || ksize.width <= 0 || stride.height <= 0 || stride.width <= 0) {
+            TS_LOG_ERROR << "Kernel size and stride must be positive" << eject;
+        }
         Size2D y;
         y.height = int(std::ceil((x.height + padding.top + padding.bottom - ksize.height) / (float) stride.height + 1));
         y.width = int(std::ceil((x.width + padding.left + padding.right - ksize.width) / (float) stride.width + 1));
+        if (y.height <= 0 || y.width <= 0) {
+            TS_LOG_ERROR << "Pooling window does not fit the padded input" << eject;
+        }
         return y;
     }
 
@@ -29,6 +37,14 @@ namespace ts {
 
     inline Size2D conv2d_forward(const Size2D &x, const Padding2D &padding, const KSize2D &ksize,
                                  const Stride2D &stride, const Dilation2D &dialations) {
+        if (ksize.height <= 0 || ksize.width <= 0 || stride.height <= 0 || stride.width <= 0 ||
+            dialations.height <= 0 || dialations.width <= 0) {
+            TS_LOG_ERROR << "Kernel size, stride and dilation must be positive" << eject;
+        }
+        if (x.height + padding.top + padding.bottom < dialations.height * (ksize.height - 1) + 1 ||
+            x.width + padding.left + padding.right < dialations.width * (ksize.width - 1) + 1) {
+            TS_LOG_ERROR << "Convolution kernel does not fit the padded input" << eject;
+        }
         Size2D y;
         y.height = Size2D::Dtype(std::floor(
                 (x.height + padding.top + padding.bottom -
diff --git a/src/backend/base/base_conv2d_transpose.cpp b/src/backend/base/base_conv2d_transpose.cpp
index 0d17a42..7f345a6 100644
--- a/src/backend/base/base_conv2d_transpose.cpp
+++ b/src/backend/base/base_conv2d_transpose.cpp
@@ -198,6 +198,10 @@ namespace ts {
             }
 
             Size2D y = conv2d_backward(x, padding, ksize, stride, dialations);
+            if (y.height <= 0 || y.width <= 0) {
+                TS_LOG_ERROR << this->op() << " padding removes the whole output of x=" << x_tensor.proto()
+                             << ", w=" << w_tensor.proto() << eject;
+            }
 
             Tensor::Prototype out_proto;
 
diff --git a/src/kernels/cpu/conv2d_v2.cpp b/src/kernels/cpu/conv2d_v2.cpp
index f008fdb..db8256a 100644
--- a/src/kernels/cpu/conv2d_v2.cpp
+++ b/src/kernels/cpu/conv2d_v2.cpp
@@ -63,9 +63,11 @@ namespace ts {
             auto padding = tensor::cast(INT32, stack[1]);
 
             if (!is_int_equal(padding, m_int_padding4x2)) {
-                m_int_padding4x2 = padding.clone();
-                m_op_conv2d->set(name::padding, m_int_padding4x2);
+                m_int_padding4x2 = Tensor();  // stays unset if init throws
+                auto int_padding4x2 = padding.clone();
+                m_op_conv2d->set(name::padding, int_padding4x2);
                 m_op_conv2d->init();
+                m_int_padding4x2 = int_padding4x2;
             }
 
             stack.push(0);
@@ -80,9 +82,11 @@ namespace ts {
             auto padding = tensor::cast(INT32, stack[1]);
 
             if (!is_int_equal(padding, m_int_padding4x2)) {
-                m_int_padding4x2 = padding.clone();
-                m_op_conv2d->set(name::padding, m_int_padding4x2);
+                m_int_padding4x2 = Tensor();  // stays unset if init throws
+                auto int_padding4x2 = padding.clone();
+                m_op_conv2d->set(name::padding, int_padding4x2);
                 m_op_conv2d->init();
+                m_int_padding4x2 = int_padding4x2;
             }
 
             stack.push(0);
diff --git a/src/kernels/cpu/conv2d_winograd_v2.cpp b/src/kernels/cpu/conv2d_winograd_v2.cpp
index 21425d7..079afab 100644
--- a/src/kernels/cpu/conv2d_winograd_v2.cpp
+++ b/src/kernels/cpu/conv2d_winograd_v2.cpp
@@ -53,9 +53,11 @@ namespace ts{
 
             auto padding = tensor::cast(INT32, stack[1]);
             if (!is_int_equal(padding, m_int_padding4x2)) {
-                m_int_padding4x2 = padding.clone();
-                m_op_conv2d_winograd->set(name::padding, m_int_padding4x2);
+                m_int_padding4x2 = Tensor();  // stays unset if init throws
+                auto int_padding4x2 = padding.clone();
+                m_op_conv2d_winograd->set(name::padding, int_padding4x2);
                 m_op_conv2d_winograd->init();
+                m_int_padding4x2 = int_padding4x2;
             }
 
             stack.push(0);
@@ -70,9 +72,11 @@ namespace ts{
             auto padding = tensor::cast(INT32, stack[1]);
 
             if (!is_int_equal(padding, m_int_padding4x2)) {
-                m_int_padding4x2 = padding.clone();
-                m_op_conv2d_winograd->set(name::padding, m_int_padding4x2);
+                m_int_padding4x2 = Tensor();  // stays unset if init throws
+                auto int_padding4x2 = padding.clone();
+                m_op_conv2d_winograd->set(name::padding, int_padding4x2);
                 m_op_conv2d_winograd->init();
+                m_int_padding4x2 = int_padding4x2;
             }
 
             stack.push(0);
diff --git a/src/kernels/cpu/depthwise_conv2d_algorithm.cpp b/src/kernels/cpu/depthwise_conv2d_algorithm.cpp
index 8401b63..db325f9 100644
--- a/src/kernels/cpu/depthwise_conv2d_algorithm.cpp
+++ b/src/kernels/cpu/depthwise_conv2d_algorithm.cpp
@@ -1,6 +1,8 @@
 #include "kernels/cpu/depthwise_conv2d_algorithm.h"
 #include "kernels/common/simd.h"
 
+#include <algorithm>
+
 #ifdef TS_USE_OPENMP
 #include "kernels/common/openmp.h"
 #endif
@@ -122,9 +124,9 @@ namespace ts {
             //h_end = padding.bottom == 0 ? output_height : output_height - ((padding.bottom - 1) / stride.height + 1)
             //w_strst = padding.left == 0 ? 0 : (padding.left - 1) / stride.width + 1
             //w_end = padding.right == 0 ? output_width : output_width - ((padding.right - 1) / stride.width + 1)
-            int h_start = padding.top == 0 ? 0 : padding.top;
+            int h_start = std::min(padding.top, output_height);
             int h_end = padding.bottom == 0 ? output_height : output_height - padding.bottom;
-            int w_start = padding.left == 0 ? 0 : padding.left;
+            int w_start = std::min(padding.left, output_width);
             int w_end = padding.right == 0 ? output_width : output_width - padding.right;
             
             const float* pinput = x.data<float>();
@@ -422,9 +424,9 @@ namespace ts {
             //h_end = padding.bottom == 0 ? output_height : output_height - ((padding.bottom - 1) / stride.height + 1)
             //w_strst = padding.left == 0 ? 0 : (padding.left - 1) / stride.width + 1
             //w_end = padding.right == 0 ? output_width : output_width - ((padding.right - 1) / stride.width + 1)
-            int h_start = padding.top == 0 ? 0 : padding.top;
+            int h_start = std::min(padding.top, output_height);
             int h_end = padding.bottom == 0 ? output_height : output_height - padding.bottom;
-            int w_start = padding.left == 0 ? 0 : padding.left;
+            int w_start = std::min(padding.left, output_width);
             int w_end = padding.right == 0 ? output_width : output_width - padding.right;
 
             const float* pinput = x.data<float>();
diff --git a/src/kernels/cpu/depthwise_conv2d_v2.cpp b/src/kernels/cpu/depthwise_conv2d_v2.cpp
index a624e86..dec856d 100644
--- a/src/kernels/cpu/depthwise_conv2d_v2.cpp
+++ b/src/kernels/cpu/depthwise_conv2d_v2.cpp
@@ -61,9 +61,11 @@ namespace ts {
             auto padding = tensor::cast(INT32, stack[1]);
 
             if (!is_int_equal(padding, m_int_padding4x2)) {
-                m_int_padding4x2 = padding.clone();
-                m_op_conv2d->set(name::padding, m_int_padding4x2);
+                m_int_padding4x2 = Tensor();  // stays unset if init throws
+                auto int_padding4x2 = padding.clone();
+                m_op_conv2d->set(name::padding, int_padding4x2);
                 m_op_conv2d->init();
+                m_int_padding4x2 = int_padding4x2;
             }
 
             stack.push(0);
@@ -78,9 +80,11 @@ namespace ts {
             auto padding = tensor::cast(INT32, stack[1]);
 
             if (!is_int_equal(padding, m_int_padding4x2)) {
-                m_int_padding4x2 = padding.clone();
-                m_op_conv2d->set(name::padding, m_int_padding4x2);
+                m_int_padding4x2 = Tensor();  // stays unset if init throws
+                auto int_padding4x2 = padding.clone();
+                m_op_conv2d->set(name::padding, int_padding4x2);
                 m_op_conv2d->init();
+                m_int_padding4x2 = int_padding4x2;
             }
 
             stack.push(0);
-- 
2.43.0


From c85df28817aaea383e2037c7cd90c63ee687106d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:40 +0000
Subject: [PATCH 37/86] fix: depthwise 3x3 stride 2 keeps inside its output
 when padding exceeds it

---
 src/kernels/cpu/depthwise_conv2d_algorithm.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/kernels/cpu/depthwise_conv2d_algorithm.cpp b/src/kernels/cpu/depthwise_conv2d_algorithm.cpp
index db325f9..1ef6a3a 100644
--- a/src/kernels/cpu/depthwise_conv2d_algorithm.cpp
+++ b/src/kernels/cpu/depthwise_conv2d_algorithm.cpp
@@ -302,9 +302,9 @@ namespace ts {
             //h_end = padding.bottom == 0 ? output_height : output_height - ((padding.bottom - 1) / stride.height + 1)
             //w_strst = padding.left == 0 ? 0 : (padding.left - 1) / stride.width + 1
             //w_end = padding.right == 0 ? output_width : output_width - ((padding.right - 1) / stride.width + 1)
-            int h_start = padding.top == 0 ? 0 : (padding.top - 1) / 2 + 1;
+            int h_start = padding.top == 0 ? 0 : std::min((padding.top - 1) / 2 + 1, output_height);
             int h_end = padding.bottom == 0 ? output_height : output_height - ((padding.bottom - 1) / 2 + 1);
-            int w_start = padding.left == 0 ? 0 : (padding.left - 1) / 2 + 1;
+            int w_start = padding.left == 0 ? 0 : std::min((padding.left - 1) / 2 + 1, output_width);
             int w_end = padding.right == 0 ? output_width : output_width - ((padding.right - 1) / 2 + 1);
 
             const float* pinput = x.data<float>();
-- 
2.43.0


From 193985820c394029e3a09e4e03f828088a09e922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:39 +0000
Subject: [PATCH 38/86] fix: winograd convolution follows its kernel and checks
 its inputs

---
 include/backend/base/base_conv2d_winograd.h |  1 +
 src/backend/base/base_conv2d_winograd.cpp   | 21 ++++++++++++++++++---
 2 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/include/backend/base/base_conv2d_winograd.h b/include/backend/base/base_conv2d_winograd.h
index 30f9ddb..db35a34 100644
--- a/include/backend/base/base_conv2d_winograd.h
+++ b/include/backend/base/base_conv2d_winograd.h
@@ -35,6 +35,7 @@ namespace ts{
             float m_padding_value;
             bool m_kernel_transformed;
             Tensor m_k_transformed;
+            Tensor m_k_origin;  // kernel that m_k_transformed was made from
         };
     }
 }
diff --git a/src/backend/base/base_conv2d_winograd.cpp b/src/backend/base/base_conv2d_winograd.cpp
index bcc34b0..54f09bc 100644
--- a/src/backend/base/base_conv2d_winograd.cpp
+++ b/src/backend/base/base_conv2d_winograd.cpp
@@ -10,6 +10,8 @@
 
 #include "kernels/common/function.h"
 
+#include <cstring>
+
 namespace ts {
     namespace base{
         Conv2DWinograd::Conv2DWinograd() {
@@ -85,6 +87,13 @@ namespace ts {
             TS_AUTO_CHECK(x_tensor.dims() == 4);
             TS_AUTO_CHECK(k_tensor.dims() == 4);
 
+            TS_AUTO_CHECK(x_tensor.dtype() == k_tensor.dtype());
+
+            if (m_format == FORMAT_NCHW) {
+                TS_AUTO_CHECK(k_tensor.size(1) == x_tensor.size(1));
+                if (!m_kernel_transformed) TS_AUTO_CHECK(k_tensor.size(2) == 3 && k_tensor.size(3) == 3);
+            }
+
             Size2D x;
             //winograd conv2d only suppot ksize == 3x3 && stride == 1 && dialations == 1
             Size2D ksize(3, 3);
@@ -122,6 +131,11 @@ namespace ts {
             return 1;
         }
 
+        static bool is_same_kernel(const Tensor &lhs, const Tensor &rhs) {
+            return lhs.dtype() == rhs.dtype() && lhs.sizes() == rhs.sizes() &&
+                   std::memcmp(lhs.data(), rhs.data(), size_t(lhs.count()) * lhs.proto().type_bytes()) == 0;
+        }
+
         int Conv2DWinograd::run(ts::Stack &stack) {
             std::vector<Tensor::Prototype> output;
             infer(stack, output);
@@ -143,7 +157,8 @@ namespace ts {
             }
 
             //warm up
-            if(!m_kernel_transformed || m_k_transformed.empty()){
+            if(m_k_transformed.empty() ||
+               (!m_kernel_transformed && !is_same_kernel(m_k_origin, kernel_tensor))){
                 //select winograd mode
                 WinogradConv2DMode winograd_mode;
                 KernelCommonFunc<float>::winograd_mode_select_on_arm(x_tensor.sizes(), kernel_tensor.size(0), winograd_mode);
@@ -158,10 +173,10 @@ namespace ts {
 
                 conv2d_tranform_kernel(m_winograd_mode, kernel_tensor, m_k_transformed);
 
-                m_kernel_transformed = true;
+                m_k_origin = kernel_tensor.clone();
             }
 
-            conv2d_winograd(x_tensor, m_winograd_mode, padding, m_padding_value, m_k_transformed, m_format, out, m_kernel_transformed);
+            conv2d_winograd(x_tensor, m_winograd_mode, padding, m_padding_value, m_k_transformed, m_format, out, true);
 
 
             return 1;
-- 
2.43.0


From d52801f24ebd30093fa893c8d879943e7e816c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:07 +0000
Subject: [PATCH 39/86] fix: pooling of doubles, tiny inputs and windows over
 padding only; pooling2d_v2 survives a failed initialisation

---
 src/kernels/cpu/pooling2d_core.cpp | 31 +++++++++++++--
 src/kernels/cpu/pooling2d_v2.cpp   | 64 +++++++++++++++---------------
 2 files changed, 60 insertions(+), 35 deletions(-)

diff --git a/src/kernels/cpu/pooling2d_core.cpp b/src/kernels/cpu/pooling2d_core.cpp
index 6d67ab8..52aee05 100644
--- a/src/kernels/cpu/pooling2d_core.cpp
+++ b/src/kernels/cpu/pooling2d_core.cpp
@@ -8,6 +8,7 @@
 
 #include <algorithm>
 #include <functional>
+#include <type_traits>
 #include <kernels/cpu/pooling_algorithm.h>
 
 #include "utils/platform.h"
@@ -17,13 +18,33 @@ namespace ts {
 
         using function = std::function<void(const Tensor &,Tensor &,const Padding2D &)>;
 
+        /**
+         * The fast kernels read at least a whole window row and column of the input,
+         * and write at most one partial window at the right and at the bottom.
+         */
+        static inline bool is_fast_pooling_size(int input, int output, int ksize, int pad_begin) {
+            if (input < ksize + 1) return false;
+            auto pad_all = std::max((output - 1) * 2 + ksize - input, 0);
+            return pad_all - pad_begin < ksize;
+        }
+
         template<typename T>
-        static inline function get_pooling_kernel(const Padding2D &padding,
+        static inline function get_pooling_kernel(const Shape &input_shape,
+                                                  const Shape &output_shape,
+                                                  const Padding2D &padding,
                                                   const KSize2D &ksize,
                                                   const Stride2D &stride,
                                                   Pooling2DType pooling_type){
             function pooling_kernel;
 
+            // fast kernels are implemented for float only
+            if (!std::is_same<T, float>::value) return pooling_kernel;
+
+            if (!is_fast_pooling_size(input_shape[2], output_shape[2], ksize.height, padding.top) ||
+                !is_fast_pooling_size(input_shape[3], output_shape[3], ksize.width, padding.left)) {
+                return pooling_kernel;
+            }
+
             if((stride.height == 2 && stride.width == 2) &&
               (padding.top == 0 || padding.top == 1) &&
               (padding.bottom == 0 || padding.bottom == 1) &&
@@ -67,7 +88,11 @@ namespace ts {
                             ihStart = std::max<int>(ihStart, 0);
                             iwStart = std::max<int>(iwStart, 0);
                             int outIndex = oh * output_w + ow;
-                            //T maxVlue = 0;
+                            if (ihStart >= ihEnd || iwStart >= iwEnd) {
+                                // the window covers padding only
+                                output_data[outIndex] = 0;
+                                continue;
+                            }
                             T maxVlue = input_data[ihStart * input_w + iwStart];
                             //int count = 0;
                             for (int ih = ihStart; ih < ihEnd; ih++) {
@@ -197,7 +222,7 @@ namespace ts {
             static const auto WHITE_MAX = ENCODE(Padding2DType::WHITE, Pooling2DType::MAX);
             static const auto WHITE_AVG = ENCODE(Padding2DType::WHITE, Pooling2DType::AVG);
 
-            auto pooling_kernel = get_pooling_kernel<T>(padding, ksize, stride, type);
+            auto pooling_kernel = get_pooling_kernel<T>(x.sizes(), out.sizes(), padding, ksize, stride, type);
 
             if (code == BLACK_MAX) {
                 if(pooling_kernel){
diff --git a/src/kernels/cpu/pooling2d_v2.cpp b/src/kernels/cpu/pooling2d_v2.cpp
index 06c9efa..734ed8f 100644
--- a/src/kernels/cpu/pooling2d_v2.cpp
+++ b/src/kernels/cpu/pooling2d_v2.cpp
@@ -56,25 +56,25 @@ namespace ts {
             auto ksize = tensor::cast(INT32, stack[2]);
             auto stride = tensor::cast(INT32, stack[3]);
 
-            bool updated = false;
-            if (!is_int_equal(padding, m_padding_int4x2)) {
-                m_padding_int4x2 = padding.clone();
-                m_op_pooling2d->set(name::padding, m_padding_int4x2);
-                updated = true;
-            }
-            if (!is_int_equal(ksize, m_ksize_int4)) {
-                m_ksize_int4 = ksize.clone();
-                m_op_pooling2d->set(name::ksize, m_ksize_int4);
-                updated = true;
-            }
-            if (!is_int_equal(stride, m_stride_int4)) {
-                m_stride_int4 = stride.clone();
-                m_op_pooling2d->set(name::stride, m_stride_int4);
-                updated = true;
-            }
+            bool updated = !is_int_equal(padding, m_padding_int4x2) ||
+                           !is_int_equal(ksize, m_ksize_int4) ||
+                           !is_int_equal(stride, m_stride_int4);
 
             if (updated) {
+                // stay unset if init throws
+                m_padding_int4x2 = Tensor();
+                m_ksize_int4 = Tensor();
+                m_stride_int4 = Tensor();
+                auto padding_int4x2 = padding.clone();
+                auto ksize_int4 = ksize.clone();
+                auto stride_int4 = stride.clone();
+                m_op_pooling2d->set(name::padding, padding_int4x2);
+                m_op_pooling2d->set(name::ksize, ksize_int4);
+                m_op_pooling2d->set(name::stride, stride_int4);
                 m_op_pooling2d->init();
+                m_padding_int4x2 = padding_int4x2;
+                m_ksize_int4 = ksize_int4;
+                m_stride_int4 = stride_int4;
             }
 
             stack.push(0);
@@ -89,25 +89,25 @@ namespace ts {
             auto ksize = tensor::cast(INT32, stack[2]);
             auto stride = tensor::cast(INT32, stack[3]);
 
-            bool updated = false;
-            if (!is_int_equal(padding, m_padding_int4x2)) {
-                m_padding_int4x2 = padding.clone();
-                m_op_pooling2d->set(name::padding, m_padding_int4x2);
-                updated = true;
-            }
-            if (!is_int_equal(ksize, m_ksize_int4)) {
-                m_ksize_int4 = ksize.clone();
-                m_op_pooling2d->set(name::ksize, m_ksize_int4);
-                updated = true;
-            }
-            if (!is_int_equal(stride, m_stride_int4)) {
-                m_stride_int4 = stride.clone();
-                m_op_pooling2d->set(name::stride, m_stride_int4);
-                updated = true;
-            }
+            bool updated = !is_int_equal(padding, m_padding_int4x2) ||
+                           !is_int_equal(ksize, m_ksize_int4) ||
+                           !is_int_equal(stride, m_stride_int4);
 
             if (updated) {
+                // stay unset if init throws
+                m_padding_int4x2 = Tensor();
+                m_ksize_int4 = Tensor();
+                m_stride_int4 = Tensor();
+                auto padding_int4x2 = padding.clone();
+                auto ksize_int4 = ksize.clone();
+                auto stride_int4 = stride.clone();
+                m_op_pooling2d->set(name::padding, padding_int4x2);
+                m_op_pooling2d->set(name::ksize, ksize_int4);
+                m_op_pooling2d->set(name::stride, stride_int4);
                 m_op_pooling2d->init();
+                m_padding_int4x2 = padding_int4x2;
+                m_ksize_int4 = ksize_int4;
+                m_stride_int4 = stride_int4;
             }
 
 
-- 
2.43.0


From 589edc6e48fd20622fcd87c12c945b2f32efc9e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:28 +0000
Subject: [PATCH 40/86] fix: bilinear sampling stays inside the image and
 reaches its last row and column; matmul checks its shapes

---
 src/backend/base/base_matmul.cpp    | 12 +++++++++---
 src/kernels/cpu/affine_sample2d.cpp | 26 +++++++++++++++-----------
 src/kernels/cpu/resize2d.cpp        | 14 +++++++++-----
 3 files changed, 33 insertions(+), 19 deletions(-)

diff --git a/src/backend/base/base_matmul.cpp b/src/backend/base/base_matmul.cpp
index 32bfac7..a63e164 100644
--- a/src/backend/base/base_matmul.cpp
+++ b/src/backend/base/base_matmul.cpp
@@ -28,12 +28,14 @@ namespace ts {
         }
 
         int MatMul::infer(Stack &stack, std::vector<Tensor::Prototype> &outputs) {
+            TS_CHECK_GE(stack.size(), 2);
+
             auto a = stack[0];
             auto b = stack[1];
 
             auto dim4 = false;
             if (b.dims() == 4) {
-                auto one = a.size(0) * a.size(1) * b.size(0) * b.size(1);
+                auto one = a.dims() == 4 && a.size(0) == 1 && a.size(1) == 1 && b.size(0) == 1 && b.size(1) == 1;
                 if (!one) {
                     TS_LOG_ERROR << "Input of MatMal could be [1, 1, ?, k] and [1, 1, k, ?], but got "
                         << a.dims() << " " << b.dims() << eject;
@@ -41,8 +43,12 @@ namespace ts {
                 dim4 = true;
                 a = a.reshape({a.size(2), a.size(3)});
                 b = b.reshape({b.size(2), b.size(3)});
-            } else if (b.dims() > 2) {
-                TS_LOG_ERROR << "Dimension of b in MatMal must less than 2, but got " << b.dims() << eject;
+            } else if (b.dims() != 2) {
+                TS_LOG_ERROR << "Dimension of b in MatMal must be 2, but got " << b.dims() << eject;
+            }
+
+            if (a.dims() == 0 || a.size(int(a.dims()) - 1) != b.size(0) || a.dtype() != b.dtype()) {
+                TS_LOG_ERROR << "MatMul can not multiply a=" << a.proto() << ", b=" << b.proto() << eject;
             }
 
             outputs.resize(1);
diff --git a/src/kernels/cpu/affine_sample2d.cpp b/src/kernels/cpu/affine_sample2d.cpp
index 5987558..55f3d08 100644
--- a/src/kernels/cpu/affine_sample2d.cpp
+++ b/src/kernels/cpu/affine_sample2d.cpp
@@ -72,8 +72,8 @@ namespace ts {
                     double lf_x_s = location.x;
                     double lf_y_s = location.y;
 
-                    auto inner = lf_x_s >= 0 && lf_x_s < src_width - 1 &&
-                                 lf_y_s >= 0 && lf_y_s < src_height - 1;
+                    auto inner = lf_x_s >= 0 && lf_x_s <= src_width - 1 &&
+                                 lf_y_s >= 0 && lf_y_s <= src_height - 1;
 
                     if (!inner && outer_mode == base::AffineOuterMode::VALUE) {
                         for (int c = 0; c < channels; c++) {
@@ -83,13 +83,17 @@ namespace ts {
                     }
 
                     lf_x_s = lf_x_s >= 0 ? lf_x_s : 0;
-                    lf_x_s = lf_x_s < src_width - 1 ? lf_x_s : src_width - 1 - 1e-5;
+                    lf_x_s = lf_x_s < src_width - 1 ? lf_x_s : src_width - 1;
                     lf_y_s = lf_y_s >= 0 ? lf_y_s : 0;
-                    lf_y_s = lf_y_s < src_height - 1 ? lf_y_s : src_height - 1 - 1e-5;
+                    lf_y_s = lf_y_s < src_height - 1 ? lf_y_s : src_height - 1;
 
                     int n_x_s = int(lf_x_s);
                     int n_y_s = int(lf_y_s);
 
+                    // the neighbours, inside the image also at its last column and row
+                    int n_x_n = n_x_s < src_width - 1 ? n_x_s + 1 : n_x_s;
+                    int n_y_n = n_y_s < src_height - 1 ? n_y_s + 1 : n_y_s;
+
                     double lf_weight_x = lf_x_s - n_x_s;
                     double lf_weight_y = lf_y_s - n_y_s;
 
@@ -98,11 +102,11 @@ namespace ts {
                                 ((1 - lf_weight_y) * (1 - lf_weight_x) *
                                  src_im[(n_y_s * src_width + n_x_s) * channels + c] +
                                  (1 - lf_weight_y) * lf_weight_x *
-                                 src_im[(n_y_s * src_width + n_x_s + 1) * channels + c] +
+                                 src_im[(n_y_s * src_width + n_x_n) * channels + c] +
                                  lf_weight_y * (1 - lf_weight_x) *
-                                 src_im[((n_y_s + 1) * src_width + n_x_s) * channels + c] +
+                                 src_im[(n_y_n * src_width + n_x_s) * channels + c] +
                                  lf_weight_y * lf_weight_x *
-                                 src_im[((n_y_s + 1) * src_width + n_x_s + 1) * channels + c]));
+                                 src_im[(n_y_n * src_width + n_x_n) * channels + c]));
 
                     } //end for c
                 }
@@ -139,8 +143,8 @@ namespace ts {
                     auto n_x_s = int(std::round(lf_x_s));
                     auto n_y_s = int(std::round(lf_y_s));
 
-                    auto inner = n_x_s >= 0 && n_x_s < src_width - 1 &&
-                                 n_y_s >= 0 && n_y_s < src_height - 1;
+                    auto inner = n_x_s >= 0 && n_x_s < src_width &&
+                                 n_y_s >= 0 && n_y_s < src_height;
 
                     if (!inner && outer_mode == base::AffineOuterMode::VALUE) {
                         for (int c = 0; c < channels; c++) {
@@ -193,8 +197,8 @@ namespace ts {
                     auto n_x_s = int(lf_x_s);
                     auto n_y_s = int(lf_y_s);
 
-                    auto inner = n_x_s >= 0 && n_x_s < src_width - 1 &&
-                                 n_y_s >= 0 && n_y_s < src_height - 1;
+                    auto inner = n_x_s >= 0 && n_x_s < src_width &&
+                                 n_y_s >= 0 && n_y_s < src_height;
 
                     if (!inner && outer_mode == base::AffineOuterMode::VALUE) {
                         for (int c = 0; c < channels; c++) {
diff --git a/src/kernels/cpu/resize2d.cpp b/src/kernels/cpu/resize2d.cpp
index cd72e6f..4c9f64c 100644
--- a/src/kernels/cpu/resize2d.cpp
+++ b/src/kernels/cpu/resize2d.cpp
@@ -35,13 +35,17 @@ namespace ts {
                     double lf_y_s = lfy_scl * n_y_d + bias_y;
 
                     lf_x_s = lf_x_s >= 0 ? lf_x_s : 0;
-                    lf_x_s = lf_x_s < src_width - 1 ? lf_x_s : src_width - 1 - 1e-5;
+                    lf_x_s = lf_x_s < src_width - 1 ? lf_x_s : src_width - 1;
                     lf_y_s = lf_y_s >= 0 ? lf_y_s : 0;
-                    lf_y_s = lf_y_s < src_height - 1 ? lf_y_s : src_height - 1 - 1e-5;
+                    lf_y_s = lf_y_s < src_height - 1 ? lf_y_s : src_height - 1;
 
                     int n_x_s = int(lf_x_s);
                     int n_y_s = int(lf_y_s);
 
+                    // the neighbours, inside the image also at its last column and row
+                    int n_x_n = n_x_s < src_width - 1 ? n_x_s + 1 : n_x_s;
+                    int n_y_n = n_y_s < src_height - 1 ? n_y_s + 1 : n_y_s;
+
                     double lf_weight_x = lf_x_s - n_x_s;
                     double lf_weight_y = lf_y_s - n_y_s;
 
@@ -50,11 +54,11 @@ namespace ts {
                                 (T) ((1 - lf_weight_y) * (1 - lf_weight_x) *
                                      src_im[(n_y_s * src_width + n_x_s) * channels + c] +
                                      (1 - lf_weight_y) * lf_weight_x *
-                                     src_im[(n_y_s * src_width + n_x_s + 1) * channels + c] +
+                                     src_im[(n_y_s * src_width + n_x_n) * channels + c] +
                                      lf_weight_y * (1 - lf_weight_x) *
-                                     src_im[((n_y_s + 1) * src_width + n_x_s) * channels + c] +
+                                     src_im[(n_y_n * src_width + n_x_s) * channels + c] +
                                      lf_weight_y * lf_weight_x *
-                                     src_im[((n_y_s + 1) * src_width + n_x_s + 1) * channels + c]);
+                                     src_im[(n_y_n * src_width + n_x_n) * channels + c]);
 
                     }//end for c
                 }
-- 
2.43.0


From 6770c75117898b874112f38dceb9579bbaef2d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:11 +0000
Subject: [PATCH 41/86] fix: _tf_conv2d_padding compares the channels of its
 format

---
 src/backend/tf/conv2d_padding.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/backend/tf/conv2d_padding.cpp b/src/backend/tf/conv2d_padding.cpp
index 12e591f..5850b6a 100644
--- a/src/backend/tf/conv2d_padding.cpp
+++ b/src/backend/tf/conv2d_padding.cpp
@@ -172,7 +172,8 @@ namespace ts {
 
             TS_AUTO_CHECK(x_tensor.dtype() == w_tensor.dtype());
 
-            if (w_tensor.size(1) != x_tensor.size(1)) {
+            const int channel_dim = m_format == FORMAT_NHWC ? 3 : 1;
+            if (w_tensor.size(channel_dim) != x_tensor.size(channel_dim)) {
                 TS_LOG_ERROR << "Conv2D failed: x=" << x_tensor.proto() << ", w=" << w_tensor.proto()
                     << ", format=" << tensor::to_string(get(name::format)) << "." << eject;
             }
-- 
2.43.0


From db38847627251e82e2ca0ddb0db64cc092e99bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:52 +0000
Subject: [PATCH 42/86] fix: static inference of window operators keeps unknown
 sizes unknown

---
 src/runtime/inferer/factory.cpp | 601 ++++++++------------------------
 1 file changed, 150 insertions(+), 451 deletions(-)

diff --git a/src/runtime/inferer/factory.cpp b/src/runtime/inferer/factory.cpp
index e932b1b..4a12b18 100644
--- a/src/runtime/inferer/factory.cpp
+++ b/src/runtime/inferer/factory.cpp
@@ -163,23 +163,27 @@ namespace ts {
 
         TS_STATIC_ACTION(ShapeInferer::Register, "crop_nd", crop_nd)
 
-        static int32_t conv2d_forward(int32_t x, int32_t padding, int32_t dilation, int32_t kernel, int32_t stride) {
-            return int32_t(std::floor((x + padding - (dilation * (kernel - 1) + 1)) / stride + 1));
-        }
+        // padding, kernel or the likes of a window operator are unknown if they have no values
+        using WindowParam = std::vector<int32_t>;
 
-        static TensorPrototype conv2d(const Node &node, const std::vector<TensorPrototype> &inputs) {
-            auto format = node->get_string("format");
-
-            auto stide = node->get_int_list("stride");
-            auto dilation = node->get_int_list("dilation");
-            auto padding = node->get_int_list("padding");
+        static WindowParam get_window_param(const Node &node, const std::string &name) {
+            if (!node->has(name)) return {};
+            return tensor::array::to_int(node->get(name));
+        }
 
-            std::vector<int32_t> kernel_dims;
-            int32_t channel_dims;
+        static WindowParam get_window_dilation(const Node &node) {
+            return get_window_param(node, node->has("dilation") ? "dilation" : "dialations");
+        }
 
-            auto &x = inputs[0];
-            auto &w = inputs[1];
+        static WindowParam get_window_input(const Node &node, int i) {
+            auto value = get_value(node.input(i));
+            if (value.empty()) return {};
+            return tensor::array::to_int(value);
+        }
 
+        // the dimensions the windows moves over, the channels' dimension, false if the format is unknown
+        static bool get_window_dims(const Node &node, std::vector<int32_t> &kernel_dims, int32_t &channel_dims) {
+            auto format = node->get_string("format");
             if (format == "NCHW") {
                 channel_dims = 1;
                 kernel_dims = {2, 3};
@@ -187,32 +191,88 @@ namespace ts {
                 channel_dims = 3;
                 kernel_dims = {1, 2};
             } else {
-                return VOID;
+                return false;
             }
+            return true;
+        }
+
+        static int32_t conv2d_forward(int32_t x, int32_t padding, int32_t dilation, int32_t kernel, int32_t stride) {
+            return int32_t(std::floor((x + padding - (dilation * (kernel - 1) + 1)) / stride + 1));
+        }
+
+        static int32_t conv2d_backward(int32_t y, int32_t padding, int32_t dilation, int32_t kernel, int32_t stride) {
+            return (y - 1) * stride + (dilation * (kernel - 1) + 1) - padding;
+        }
+
+        static TensorPrototype window_conv2d(
+                const Node &node, const TensorPrototype &x, int32_t channels, const WindowParam &kernel,
+                const WindowParam &padding, const WindowParam &stride, const WindowParam &dilation,
+                int32_t (*forward)(int32_t, int32_t, int32_t, int32_t, int32_t) = conv2d_forward) {
+            std::vector<int32_t> kernel_dims;
+            int32_t channel_dims;
+
+            if (x.dims() != 4 || !get_window_dims(node, kernel_dims, channel_dims)) return VOID;
 
             std::vector<int32_t> y_shape(4);
             y_shape[0] = x.size(0);
-            y_shape[channel_dims] = w.size(0);
-
-            int32_t kernel_shape[] = {w.size(2), w.size(3)};
+            y_shape[channel_dims] = channels < 0 ? -1 : channels;
 
             for (size_t i = 0; i < kernel_dims.size(); ++i) {
                 auto dim = kernel_dims[i];
-                if (x.size(dim) < 0) {
-                    y_shape[dim] = -1;
-                    continue;
-                }
-                y_shape[dim] = conv2d_forward(
+                y_shape[dim] = -1;
+                if (x.size(dim) < 0 || kernel[i] < 0) continue;
+                if (padding.size() != 8 || stride.size() != 4 || dilation.size() != 4) continue;
+                if (stride[dim] <= 0) continue;
+                y_shape[dim] = forward(
                         x.size(dim),
                         padding[2 * dim] + padding[2 * dim + 1],
                         dilation[dim],
-                        kernel_shape[i],
-                        stide[dim]);
+                        kernel[i],
+                        stride[dim]);
+                // no window fits, running reports it
+                if (y_shape[dim] <= 0) return VOID;
             }
 
             return {x.dtype(), y_shape};
         }
 
+        // size of kernel w, unknown if w is unknown
+        static WindowParam get_kernel_size(const Node &node, const TensorPrototype &w) {
+            if (w.dims() != 4) return {-1, -1};
+            if (node->get_string("format") == "NHWC") return {w.size(1), w.size(2)};
+            return {w.size(2), w.size(3)};
+        }
+
+        static int32_t get_size(const TensorPrototype &x, int32_t dim) {
+            return dim < int32_t(x.dims()) ? x.size(dim) : -1;
+        }
+
+        // channels of depthwise convolution
+        static int32_t get_depthwise_channels(const Node &node, const TensorPrototype &x, const TensorPrototype &w) {
+            std::vector<int32_t> kernel_dims;
+            int32_t channel_dims;
+            if (!get_window_dims(node, kernel_dims, channel_dims)) return -1;
+            auto number = get_size(w, 0);
+            auto channels = get_size(x, channel_dims);
+            return number < 0 || channels < 0 ? -1 : number * channels;
+        }
+
+        static void set_padding_hint(const Node &node, const WindowParam &padding) {
+            if (padding.size() != 8) return;
+            auto &update_node = *const_cast<Node*>(&node);
+            update_node->set("#padding", tensor::build<int32_t>(INT32, {4, 2}, padding));
+        }
+
+        static const WindowParam ones4 = {1, 1, 1, 1};
+
+        static TensorPrototype conv2d(const Node &node, const std::vector<TensorPrototype> &inputs) {
+            auto &x = inputs[0];
+            auto &w = inputs[1];
+
+            return window_conv2d(node, x, get_size(w, 0), get_kernel_size(node, w),
+                    get_window_param(node, "padding"), get_window_param(node, "stride"), get_window_dilation(node));
+        }
+
         TS_STATIC_ACTION(ShapeInferer::Register, "conv2d", conv2d)
 
         TS_STATIC_ACTION(ShapeInferer::Register, "add_bias", _copy)
@@ -222,48 +282,39 @@ namespace ts {
             return int32_t(std::ceil((x + padding - kernel) / float(stride) + 1));
         }
 
-        static TensorPrototype pooling2d(const Node &node, const std::vector<TensorPrototype> &inputs) {
-            auto format = node->get_string("format");
-
-            auto stide = node->get_int_list("stride");
-            auto padding = node->get_int_list("padding");
-            auto ksize = node->get_int_list("ksize");
-
+        static TensorPrototype window_pooling2d(
+                const Node &node, const TensorPrototype &x,
+                const WindowParam &padding, const WindowParam &ksize, const WindowParam &stride) {
             std::vector<int32_t> kernel_dims;
             int32_t channel_dims;
 
-            auto &x = inputs[0];
+            if (x.dims() != 4 || !get_window_dims(node, kernel_dims, channel_dims)) return VOID;
 
-            if (format == "NCHW") {
-                channel_dims = 1;
-                kernel_dims = {2, 3};
-            } else if (format == "NHWC") {
-                channel_dims = 3;
-                kernel_dims = {1, 2};
-            } else {
-                return VOID;
-            }
-
-            std::vector<int32_t> y_shape(4);
-            y_shape[0] = x.size(0);
-            y_shape[channel_dims] = x.size(channel_dims);
+            auto y_shape = x.sizes();
 
-            for (size_t i = 0; i < kernel_dims.size(); ++i) {
-                auto dim = kernel_dims[i];
-                if (x.size(dim) < 0) {
-                    y_shape[dim] = -1;
-                    continue;
-                }
+            for (auto dim : kernel_dims) {
+                auto x_size = y_shape[dim];
+                y_shape[dim] = -1;
+                if (x_size < 0) continue;
+                if (padding.size() != 8 || ksize.size() != 4 || stride.size() != 4) continue;
+                if (stride[dim] <= 0) continue;
                 y_shape[dim] = pooling2d_forward(
-                        x.size(dim),
+                        x_size,
                         padding[2 * dim] + padding[2 * dim + 1],
                         ksize[dim],
-                        stide[dim]);
+                        stride[dim]);
+                // no window fits, running reports it
+                if (y_shape[dim] <= 0) return VOID;
             }
 
             return {x.dtype(), y_shape};
         }
 
+        static TensorPrototype pooling2d(const Node &node, const std::vector<TensorPrototype> &inputs) {
+            return window_pooling2d(node, inputs[0], get_window_param(node, "padding"),
+                    get_window_param(node, "ksize"), get_window_param(node, "stride"));
+        }
+
         TS_STATIC_ACTION(ShapeInferer::Register, "pooling2d", pooling2d)
 
         static int32_t eltwise_infer_dim(int32_t a, int32_t b) {
@@ -389,6 +440,8 @@ namespace ts {
             auto &x = inputs[0];
             auto &w = inputs[1];
 
+            if (x.dims() < 1 || w.dims() != 2) return VOID;
+
             bool transpose = false;
             if (node->has("transpose")) {
                 transpose = node->get_bool("transpose");
@@ -469,13 +522,15 @@ namespace ts {
                 return VOID;
             }
 
+            if (x.dims() != 4) return VOID;
+
             std::vector<int32_t> param0_shape(4, 1);
             for (auto dim: kernel_dims) {
                 if (x.size(size_t(dim)) < 0) return VOID;
                 param0_shape[dim] = x.size(size_t(dim));
             }
 
-            if (param0_shape[channel_dim] < 0) {
+            if (x.size(size_t(channel_dim)) < 0) {
                 return VOID;
             }
             param0_shape[channel_dim] = x.size(size_t(channel_dim));
@@ -502,113 +557,23 @@ namespace ts {
         TS_STATIC_ACTION(ShapeInferer::Register, "_dragon_conv2d_padding", dynamic_padding)
 
         static TensorPrototype pooling2d_v2(const Node &node, const std::vector<TensorPrototype> &inputs) {
-            auto format = node->get_string("format");
-
-            auto padding_value = get_value(node.input(1));
-            if (padding_value.empty()) return VOID;
-            auto ksize_value = get_value(node.input(2));
-            if (ksize_value.empty()) return VOID;
-            auto stride_value = get_value(node.input(3));
-            if (stride_value.empty()) return VOID;
-
-            auto padding = tensor::array::to_int(padding_value);
-            auto stide = tensor::array::to_int(stride_value);
-            auto ksize = tensor::array::to_int(ksize_value);
-
-            std::vector<int32_t> kernel_dims;
-            int32_t channel_dims;
-
-            auto &x = inputs[0];
-
-            if (format == "NCHW") {
-                channel_dims = 1;
-                kernel_dims = {2, 3};
-            } else if (format == "NHWC") {
-                channel_dims = 3;
-                kernel_dims = {1, 2};
-            } else {
-                return VOID;
-            }
-
-            std::vector<int32_t> y_shape(4);
-            y_shape[0] = x.size(0);
-            y_shape[channel_dims] = x.size(channel_dims);
+            auto padding = get_window_input(node, 1);
+            set_padding_hint(node, padding);
 
-            for (size_t i = 0; i < kernel_dims.size(); ++i) {
-                auto dim = kernel_dims[i];
-                if (x.size(dim) < 0) {
-                    y_shape[dim] = -1;
-                    continue;
-                }
-                y_shape[dim] = pooling2d_forward(
-                        x.size(dim),
-                        padding[2 * dim] + padding[2 * dim + 1],
-                        ksize[dim],
-                        stide[dim]);
-            }
-
-            {
-                auto &update_node = *const_cast<Node*>(&node);
-                update_node->set("#padding", tensor::build<int32_t>(INT32, {4, 2}, padding));
-            }
-
-            return {x.dtype(), y_shape};
+            return window_pooling2d(node, inputs[0], padding, get_window_input(node, 2), get_window_input(node, 3));
         }
 
         TS_STATIC_ACTION(ShapeInferer::Register, "pooling2d_v2", pooling2d_v2)
 
         static TensorPrototype conv2d_v2(const Node &node, const std::vector<TensorPrototype> &inputs) {
-            auto format = node->get_string("format");
-
-            auto padding_value = get_value(node.input(1));
-            if (padding_value.empty()) return VOID;
-            auto padding = tensor::array::to_int(padding_value);
-
-            auto stide = node->get_int_list("stride");
-            auto dilation = node->get_int_list("dilation");
-
-            std::vector<int32_t> kernel_dims;
-            int32_t channel_dims;
-
             auto &x = inputs[0];
             auto &w = inputs[2];
 
-            if (format == "NCHW") {
-                channel_dims = 1;
-                kernel_dims = {2, 3};
-            } else if (format == "NHWC") {
-                channel_dims = 3;
-                kernel_dims = {1, 2};
-            } else {
-                return VOID;
-            }
-
-            std::vector<int32_t> y_shape(4);
-            y_shape[0] = x.size(0);
-            y_shape[channel_dims] = w.size(0);
+            auto padding = get_window_input(node, 1);
+            set_padding_hint(node, padding);
 
-            int32_t kernel_shape[] = {w.size(2), w.size(3)};
-
-            for (size_t i = 0; i < kernel_dims.size(); ++i) {
-                auto dim = kernel_dims[i];
-                if (x.size(dim) < 0) {
-                    y_shape[dim] = -1;
-                    continue;
-                }
-                y_shape[dim] = conv2d_forward(
-                        x.size(dim),
-                        padding[2 * dim] + padding[2 * dim + 1],
-                        dilation[dim],
-                        kernel_shape[i],
-                        stide[dim]);
-            }
-
-            {
-                auto &update_node = *const_cast<Node*>(&node);
-                update_node->set("#padding", tensor::build<int32_t>(INT32, {4, 2}, padding));
-            }
-
-            return {x.dtype(), y_shape};
+            return window_conv2d(node, x, get_size(w, 0), get_kernel_size(node, w),
+                    padding, get_window_param(node, "stride"), get_window_dilation(node));
         }
 
         TS_STATIC_ACTION(ShapeInferer::Register, "conv2d_v2", conv2d_v2)
@@ -617,6 +582,7 @@ namespace ts {
             auto A = inputs[0];
             auto B = inputs[1];
 
+            if (A.dims() != 2 || B.dims() != 2) return VOID;
 
             auto transA = node->get_bool("transA");
             auto transB = node->get_bool("transB");
@@ -672,6 +638,8 @@ namespace ts {
                 return VOID;
             }
 
+            if (x.dims() != 4) return VOID;
+
             std::vector<int32_t> y_shape(4);
             y_shape[0] = x.size(0);
             y_shape[channel_dims] = x.size(channel_dims);
@@ -910,6 +878,8 @@ namespace ts {
 
             auto y_shape = x.sizes();
 
+            if (size.size() < 2) return VOID;
+
             y_shape[dim] = size[0];
             y_shape[dim + 1] = size[1];
 
@@ -1078,303 +1048,68 @@ namespace ts {
         TS_STATIC_ACTION(ShapeInferer::Register, "chunk", chunk)
 
         static TensorPrototype conv2d_quantized(const Node &node, const std::vector<TensorPrototype> &inputs) {
-            auto format = node->get_string("format");
-
-            auto stide = node->get_int_list("stride");
-            auto dilation = node->get_int_list("dilation");
-            auto padding = node->get_int_list("padding");
-
-            std::vector<int32_t> kernel_dims;
-            int32_t channel_dims;
-
             auto &x = inputs[0];
             auto &w = inputs[1];
 
-            if (format == "NCHW") {
-                channel_dims = 1;
-                kernel_dims = {2, 3};
-            } else if (format == "NHWC") {
-                channel_dims = 3;
-                kernel_dims = {1, 2};
-            } else {
-                return VOID;
-            }
-
-            std::vector<int32_t> y_shape(4);
-            y_shape[0] = x.size(0);
-            y_shape[channel_dims] = w.size(0);
-
-            int32_t kernel_shape[] = {w.size(2), w.size(3)};
-
-            for (size_t i = 0; i < kernel_dims.size(); ++i) {
-                auto dim = kernel_dims[i];
-                if (x.size(dim) < 0) {
-                    y_shape[dim] = -1;
-                    continue;
-                }
-                y_shape[dim] = conv2d_forward(
-                        x.size(dim),
-                        padding[2 * dim] + padding[2 * dim + 1],
-                        dilation[dim],
-                        kernel_shape[i],
-                        stide[dim]);
-            }
-
-            return {FLOAT32, y_shape};
+            auto y = window_conv2d(node, x, get_size(w, 0), get_kernel_size(node, w),
+                    get_window_param(node, "padding"), get_window_param(node, "stride"), get_window_dilation(node));
+            return y.dtype() == VOID ? y : TensorPrototype(FLOAT32, y.sizes());
         }
 
         TS_STATIC_ACTION(ShapeInferer::Register, "conv2d_quantized", conv2d_quantized)
 
         static TensorPrototype conv2d_winograd(const Node &node, const std::vector<TensorPrototype> &inputs) {
-            auto format = node->get_string("format");
-
-            std::vector<int32_t> stide = {1, 1, 1, 1};
-            std::vector<int32_t> dilation = {1, 1, 1, 1};
-            std::vector<int32_t> padding = node->get_int_list("padding");
-
-            std::vector<int32_t> kernel_dims;
-            int32_t channel_dims;
-
             auto &x = inputs[0];
             auto &w = inputs[1];
 
-            if (format == "NCHW") {
-                channel_dims = 1;
-                kernel_dims = {2, 3};
-            } else if (format == "NHWC") {
-                channel_dims = 3;
-                kernel_dims = {1, 2};
-            } else {
-                return VOID;
-            }
-
-            std::vector<int32_t> y_shape(4);
-            y_shape[0] = x.size(0);
-            y_shape[channel_dims] = w.size(0);
-
-            int32_t kernel_shape[] = {3, 3};
-
-            for (size_t i = 0; i < kernel_dims.size(); ++i) {
-                auto dim = kernel_dims[i];
-                if (x.size(dim) < 0) {
-                    y_shape[dim] = -1;
-                    continue;
-                }
-                y_shape[dim] = conv2d_forward(
-                        x.size(dim),
-                        padding[2 * dim] + padding[2 * dim + 1],
-                        dilation[dim],
-                        kernel_shape[i],
-                        stide[dim]);
-            }
-
-            return {x.dtype(), y_shape};
+            return window_conv2d(node, x, get_size(w, 0), {3, 3},
+                    get_window_param(node, "padding"), ones4, ones4);
         }
 
         TS_STATIC_ACTION(ShapeInferer::Register, "conv2d_winograd", conv2d_winograd)
 
         static TensorPrototype conv2d_winograd_v2(const Node &node, const std::vector<TensorPrototype> &inputs) {
-            auto format = node->get_string("format");
-
-            auto padding_value = get_value(node.input(1));
-            auto padding = tensor::array::to_int(padding_value);
-
-            std::vector<int32_t> stide = {1, 1, 1, 1};
-            std::vector<int32_t> dilation = {1, 1, 1, 1};
-
-            std::vector<int32_t> kernel_dims;
-            int32_t channel_dims;
-
             auto &x = inputs[0];
             auto &w = inputs[2];
 
-            if (format == "NCHW") {
-                channel_dims = 1;
-                kernel_dims = {2, 3};
-            } else if (format == "NHWC") {
-                channel_dims = 3;
-                kernel_dims = {1, 2};
-            } else {
-                return VOID;
-            }
-
-            std::vector<int32_t> y_shape(4);
-            y_shape[0] = x.size(0);
-            y_shape[channel_dims] = w.size(0);
-
-            int32_t kernel_shape[] = {3, 3};
+            auto padding = get_window_input(node, 1);
+            set_padding_hint(node, padding);
 
-            for (size_t i = 0; i < kernel_dims.size(); ++i) {
-                auto dim = kernel_dims[i];
-                if (x.size(dim) < 0) {
-                    y_shape[dim] = -1;
-                    continue;
-                }
-                y_shape[dim] = conv2d_forward(
-                        x.size(dim),
-                        padding[2 * dim] + padding[2 * dim + 1],
-                        dilation[dim],
-                        kernel_shape[i],
-                        stide[dim]);
-            }
-
-            {
-                auto &update_node = *const_cast<Node*>(&node);
-                update_node->set("#padding", tensor::build<int32_t>(INT32, {4, 2}, padding));
-            }
-
-            return {x.dtype(), y_shape};
+            return window_conv2d(node, x, get_size(w, 0), {3, 3},
+                    padding, ones4, ones4);
         }
 
         TS_STATIC_ACTION(ShapeInferer::Register, "conv2d_winograd_v2", conv2d_winograd_v2)
 
         static TensorPrototype dcn_v2_forward(const Node &node, const std::vector<TensorPrototype> &inputs) {
-            auto format = node->get_string("format");
-
-            auto stide = node->get_int_list("stride");
-            auto dilation = node->get_int_list("dilation");
-            auto padding = node->get_int_list("padding");
-
-            std::vector<int32_t> kernel_dims;
-            int32_t channel_dims;
-
             auto &x = inputs[0];
             auto &w = inputs[1];
 
-            if (format == "NCHW") {
-                channel_dims = 1;
-                kernel_dims = {2, 3};
-            } else if (format == "NHWC") {
-                channel_dims = 3;
-                kernel_dims = {1, 2};
-            } else {
-                return VOID;
-            }
-
-            std::vector<int32_t> y_shape(4);
-            y_shape[0] = x.size(0);
-            y_shape[channel_dims] = w.size(0);
-
-            int32_t kernel_shape[] = {w.size(2), w.size(3)};
-
-            for (size_t i = 0; i < kernel_dims.size(); ++i) {
-                auto dim = kernel_dims[i];
-                if (x.size(dim) < 0) {
-                    y_shape[dim] = -1;
-                    continue;
-                }
-                y_shape[dim] = conv2d_forward(
-                        x.size(dim),
-                        padding[2 * dim] + padding[2 * dim + 1],
-                        dilation[dim],
-                        kernel_shape[i],
-                        stide[dim]);
-            }
-
-            return {x.dtype(), y_shape};
+            return window_conv2d(node, x, get_size(w, 0), get_kernel_size(node, w),
+                    get_window_param(node, "padding"), get_window_param(node, "stride"), get_window_dilation(node));
         }
 
         TS_STATIC_ACTION(ShapeInferer::Register, "dcn_v2_forward", dcn_v2_forward)
 
         static TensorPrototype depthwise_conv2d(const Node &node, const std::vector<TensorPrototype> &inputs) {
-            auto format = node->get_string("format");
-
-            auto stide = node->get_int_list("stride");
-            auto dilation = node->get_int_list("dilation");
-            auto padding = node->get_int_list("padding");
-
-            std::vector<int32_t> kernel_dims;
-            int32_t channel_dims;
-
             auto &x = inputs[0];
             auto &w = inputs[1];
 
-            if (format == "NCHW") {
-                channel_dims = 1;
-                kernel_dims = {2, 3};
-            } else if (format == "NHWC") {
-                channel_dims = 3;
-                kernel_dims = {1, 2};
-            } else {
-                return VOID;
-            }
-
-            std::vector<int32_t> y_shape(4);
-            y_shape[0] = x.size(0);
-            y_shape[channel_dims] = w.size(0) * x.size(channel_dims);
-
-            int32_t kernel_shape[] = {w.size(2), w.size(3)};
-
-            for (size_t i = 0; i < kernel_dims.size(); ++i) {
-                auto dim = kernel_dims[i];
-                if (x.size(dim) < 0) {
-                    y_shape[dim] = -1;
-                    continue;
-                }
-                y_shape[dim] = conv2d_forward(
-                        x.size(dim),
-                        padding[2 * dim] + padding[2 * dim + 1],
-                        dilation[dim],
-                        kernel_shape[i],
-                        stide[dim]);
-            }
-
-            return {x.dtype(), y_shape};
+            return window_conv2d(node, x, get_depthwise_channels(node, x, w), get_kernel_size(node, w),
+                    get_window_param(node, "padding"), get_window_param(node, "stride"), get_window_dilation(node));
         }
 
         TS_STATIC_ACTION(ShapeInferer::Register, "depthwise_conv2d", depthwise_conv2d)
 
         static TensorPrototype depthwise_conv2d_v2(const Node &node, const std::vector<TensorPrototype> &inputs) {
-            auto format = node->get_string("format");
-
-            auto padding_value = get_value(node.input(1));
-            auto padding = tensor::array::to_int(padding_value);
-
-            auto stide = node->get_int_list("stride");
-            auto dilation = node->get_int_list("dilation");
-
-            std::vector<int32_t> kernel_dims;
-            int32_t channel_dims;
-
             auto &x = inputs[0];
             auto &w = inputs[2];
 
-            if (format == "NCHW") {
-                channel_dims = 1;
-                kernel_dims = {2, 3};
-            } else if (format == "NHWC") {
-                channel_dims = 3;
-                kernel_dims = {1, 2};
-            } else {
-                return VOID;
-            }
-
-            std::vector<int32_t> y_shape(4);
-            y_shape[0] = x.size(0);
-            y_shape[channel_dims] = w.size(0) * x.size(channel_dims);
+            auto padding = get_window_input(node, 1);
+            set_padding_hint(node, padding);
 
-            int32_t kernel_shape[] = {w.size(2), w.size(3)};
-
-            for (size_t i = 0; i < kernel_dims.size(); ++i) {
-                auto dim = kernel_dims[i];
-                if (x.size(dim) < 0) {
-                    y_shape[dim] = -1;
-                    continue;
-                }
-                y_shape[dim] = conv2d_forward(
-                        x.size(dim),
-                        padding[2 * dim] + padding[2 * dim + 1],
-                        dilation[dim],
-                        kernel_shape[i],
-                        stide[dim]);
-            }
-
-            {
-                auto &update_node = *const_cast<Node*>(&node);
-                update_node->set("#padding", tensor::build<int32_t>(INT32, {4, 2}, padding));
-            }
-
-            return {x.dtype(), y_shape};
+            return window_conv2d(node, x, get_depthwise_channels(node, x, w), get_kernel_size(node, w),
+                    padding, get_window_param(node, "stride"), get_window_dilation(node));
         }
 
         TS_STATIC_ACTION(ShapeInferer::Register, "depthwise_conv2d_v2", depthwise_conv2d_v2)
@@ -1518,54 +1253,12 @@ namespace ts {
 
         TS_STATIC_ACTION(ShapeInferer::Register, "non_max_suppression_v3", non_max_suppression_v3)
 
-        static int32_t conv2d_backward(int32_t y, int32_t padding, int32_t dilation, int32_t kernel, int32_t stride) {
-            return (y - 1) * stride + (dilation * (kernel - 1) + 1) - padding;
-        }
-
         static TensorPrototype transpose_conv2d(const Node &node, const std::vector<TensorPrototype> &inputs) {
-            auto format = node->get_string("format");
-
-            auto stide = node->get_int_list("stride");
-            auto dilation = node->get_int_list("dilation");
-            auto padding = node->get_int_list("padding");
-
-            std::vector<int32_t> kernel_dims;
-            int32_t channel_dims;
-
             auto &x = inputs[0];
             auto &w = inputs[1];
 
-            if (format == "NCHW") {
-                channel_dims = 1;
-                kernel_dims = {2, 3};
-            } else if (format == "NHWC") {
-                channel_dims = 3;
-                kernel_dims = {1, 2};
-            } else {
-                return VOID;
-            }
-
-            std::vector<int32_t> y_shape(4);
-            y_shape[0] = x.size(0);
-            y_shape[channel_dims] = w.size(1);
-
-            int32_t kernel_shape[] = {w.size(2), w.size(3)};
-
-            for (size_t i = 0; i < kernel_dims.size(); ++i) {
-                auto dim = kernel_dims[i];
-                if (x.size(dim) < 0) {
-                    y_shape[dim] = -1;
-                    continue;
-                }
-                y_shape[dim] = conv2d_backward(
-                        x.size(dim),
-                        padding[2 * dim] + padding[2 * dim + 1],
-                        dilation[dim],
-                        kernel_shape[i],
-                        stide[dim]);
-            }
-
-            return {x.dtype(), y_shape};
+            return window_conv2d(node, x, get_size(w, 1), get_kernel_size(node, w),
+                    get_window_param(node, "padding"), get_window_param(node, "stride"), get_window_dilation(node), conv2d_backward);
         }
 
         TS_STATIC_ACTION(ShapeInferer::Register, "transpose_conv2d", transpose_conv2d)
@@ -1770,6 +1463,7 @@ namespace ts {
             GET_NODE_INT_ATTR(pool_w)
 
             // inputs = features, proposal
+            if (inputs[0].dims() < 2 || inputs[1].dims() < 1) return VOID;
 
             return {inputs[0].dtype(), {inputs[1].size(0), inputs[0].size(1), pool_h, pool_w}};
         }
@@ -1797,10 +1491,12 @@ namespace ts {
         TS_STATIC_ACTION(ShapeInferer::Register, "sample2d", sample2d)
 
         static TensorPrototype shape_index_patch(const Node &node, const std::vector<TensorPrototype> &inputs) {
-            if (inputs.size() != 1) return VOID;
+            if (inputs.size() != 2) return VOID;
             auto &x = inputs[0];
             auto &pos = inputs[1];
 
+            if (x.dims() != 4 || pos.dims() < 2) return VOID;
+
             auto number = x.size(0);
             auto channels = x.size(1);
             auto height = x.size(2);
@@ -1810,10 +1506,12 @@ namespace ts {
             GET_NODE_INT_LIST_ATTR(origin_patch)
             GET_NODE_INT_LIST_ATTR(origin)
 
-            auto x_patch_h = int(origin_patch[0] * height / float(origin[0]) + 0.5f);
-            auto x_patch_w = int(origin_patch[1] * width / float(origin[1]) + 0.5f);
+            if (origin_patch.size() < 2 || origin.size() < 2) return VOID;
+
+            auto x_patch_h = height < 0 ? -1 : int(origin_patch[0] * height / float(origin[0]) + 0.5f);
+            auto x_patch_w = width < 0 ? -1 : int(origin_patch[1] * width / float(origin[1]) + 0.5f);
 
-            Shape y_shape = {number, channels, x_patch_h, landmarkx2 / 2, x_patch_w};
+            Shape y_shape = {number, channels, x_patch_h, landmarkx2 < 0 ? -1 : landmarkx2 / 2, x_patch_w};
 
             return {x.dtype(), y_shape};
         }
@@ -2276,6 +1974,7 @@ namespace ts {
 
             auto y_shape = x.sizes();
             for (size_t i = 0; i < y_shape.size(); ++i) {
+                if (y_shape[i] < 0) continue;
                 y_shape[i] = int32_t(float(x.size(i)) * scale[i]);
             }
 
-- 
2.43.0


From 32fc678538ba7037ae3715c657189144b5b3259c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:16 +0000
Subject: [PATCH 43/86] fix: device memory and the recycling pool return what
 they hold exactly once

---
 src/core/hard_memory.cpp | 10 +++++++++-
 src/memory/orz/vat.cpp   |  2 ++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/core/hard_memory.cpp b/src/core/hard_memory.cpp
index cfaa7cf..7ae14e6 100644
--- a/src/core/hard_memory.cpp
+++ b/src/core/hard_memory.cpp
@@ -43,6 +43,7 @@ namespace ts {
     void HardMemory::dispose() {
         if (m_allocator) m_allocator(m_device.id(), 0, m_data, 0);
         m_data = nullptr;
+        m_capacity = 0;
     }
 
     void HardMemory::expect(size_t size) {
@@ -64,7 +65,9 @@ namespace ts {
     void HardMemory::resize(size_t size) {
         if (!m_allocator) TS_LOG_ERROR("Borrowed memory can not be resized.") << eject;
         if (size != m_capacity) {
-            m_data = m_allocator(m_device.id(), size, m_data, 0);
+            // give the old memory back first, so nothing is kept if there is no new one
+            this->dispose();
+            m_data = m_allocator(m_device.id(), size, nullptr, 0);
             m_capacity = size;
         }
     }
@@ -81,12 +84,17 @@ namespace ts {
     }
 
     HardMemory &HardMemory::operator=(self &&other) TS_NOEXCEPT {
+        if (this == &other) return *this;
+        this->dispose();
 #define MOVE_MEMBER(member) this->member = std::move(other.member)
         MOVE_MEMBER(m_device);
         MOVE_MEMBER(m_capacity);
         MOVE_MEMBER(m_data);
         MOVE_MEMBER(m_allocator);
 #undef MOVE_MEMBER
+        other.m_capacity = 0;
+        other.m_data = nullptr;
+        other.m_allocator = nullptr;
         return *this;
     }
 }
diff --git a/src/memory/orz/vat.cpp b/src/memory/orz/vat.cpp
index d2e244c..b941f73 100644
--- a/src/memory/orz/vat.cpp
+++ b/src/memory/orz/vat.cpp
@@ -95,6 +95,8 @@ namespace ts {
     {
         this->m_heap.swap(that.m_heap);
         this->m_dict.swap(that.m_dict);
+        std::swap(this->m_allocator, that.m_allocator);
+        std::swap(this->m_deprecated, that.m_deprecated);
     }
 
     Vat::Vat(Vat &&that)
-- 
2.43.0


From 780770df3dc8681ce1e0d1a9ab45107698a85be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:12 +0000
Subject: [PATCH 44/86] fix: broadcasting keeps the views of its own device,
 filling with nothing ends

---
 include/core/sync/sync_block.h | 11 ++++++-----
 src/core/memory.cpp            |  1 +
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/include/core/sync/sync_block.h b/include/core/sync/sync_block.h
index 748cf99..ea08b21 100644
--- a/include/core/sync/sync_block.h
+++ b/include/core/sync/sync_block.h
@@ -137,11 +137,12 @@ namespace ts {
         // be careful, this action may disable already exist view
         void broadcast() {
             auto _write = this->lock_write();
-            auto key = m_default_key;
-            auto value = *m_default_value;
-            m_param->m_sync_values.clear();
-            auto pair_it_flag = m_param->m_sync_values.insert(std::make_pair(key, value));
-            m_default_value = &(pair_it_flag.first->second);
+            // keep the value in place, other views on this key refer to it
+            auto &values = m_param->m_sync_values;
+            for (auto it = values.begin(); it != values.end();) {
+                if (it->first == m_default_key) ++it;
+                else it = values.erase(it);
+            }
         }
 
         void foreach(const std::function<void(const _KEY &key, const _VALUE &value)> &handler) const {
diff --git a/src/core/memory.cpp b/src/core/memory.cpp
index 5b690b7..57bce7a 100644
--- a/src/core/memory.cpp
+++ b/src/core/memory.cpp
@@ -123,6 +123,7 @@ namespace ts {
 
     void memset(void *dst_ptr, const Device &dst_device, size_t dst_size, const void *src_ptr, const Device &src_device,
                 size_t src_size) {
+        if (src_size == 0) return;  // nothing to fill with
         HardConverter::function cross_device_converter = HardConverter::Query(dst_device.type(),
                                                                               src_device.type());
         TS_AUTO_CHECK(cross_device_converter != nullptr);
-- 
2.43.0


From 455289f62bb6b0a0d68f8a28970024907a9fb2b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:56 +0000
Subject: [PATCH 45/86] fix: type_str names 16-bit integers

---
 include/core/dtype.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/core/dtype.h b/include/core/dtype.h
index 039b084..a17a03c 100644
--- a/include/core/dtype.h
+++ b/include/core/dtype.h
@@ -91,8 +91,8 @@ namespace ts {
             case VOID: return "void";
             case INT8: return "int8";
             case UINT8: return "uint8";
-            case INT16: return "int64";
-            case UINT16: return "uint64";
+            case INT16: return "int16";
+            case UINT16: return "uint16";
             case INT32: return "int32";
             case UINT32: return "uint32";
             case INT64: return "int64";
-- 
2.43.0


From 0b64dd85a5cc8e3a9781dc98a2a51e07de4fa7a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:01 +0000
Subject: [PATCH 46/86] fix: packing nothing leaves no fields; reshape and
 slice reject what does not fit

---
 src/core/tensor.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/core/tensor.cpp b/src/core/tensor.cpp
index 3a4cd8d..7eea00b 100644
--- a/src/core/tensor.cpp
+++ b/src/core/tensor.cpp
@@ -226,6 +226,9 @@ namespace ts {
         if (fixed_index >= 0) {
             auto up = std::accumulate(this->sizes().begin(), this->sizes().end(), 1, std::multiplies<int>());
             auto down = std::accumulate(fixed_shape.begin(), fixed_shape.end(), 1, std::multiplies<int>());
+            if (down == 0) {
+                TS_LOG_ERROR << "Can not reshape " << to_string(this->sizes()) << " to " << to_string(shape) << eject;
+            }
             fixed_shape[fixed_index] = up / -down;
         }
 
@@ -242,6 +245,7 @@ namespace ts {
         if (fields.empty()) {
             this->m_memory = make_smart<TensorMemory>();
             this->m_proto = Prototype();
+            this->m_fields.clear();
             return;
         }
         this->m_memory = fields[0].m_memory;
@@ -633,6 +637,8 @@ namespace ts {
 
     Tensor Tensor::slice(int i) {
         auto &sizes = this->sizes();
+        TS_AUTO_CHECK(sizes.size() >= 1);
+        TS_AUTO_CHECK(i >= 0 && i < sizes[0]);
         auto width = std::accumulate(sizes.begin() + 1, sizes.end(), 1, std::multiplies<int>());
         width *= this->proto().type_bytes();
         Shape slice_shape(sizes.begin() + 1, sizes.end());
@@ -643,6 +649,8 @@ namespace ts {
     Tensor Tensor::slice(int beg, int end) {
         TS_AUTO_CHECK(beg < end);
         auto &sizes = this->sizes();
+        TS_AUTO_CHECK(sizes.size() >= 1);
+        TS_AUTO_CHECK(beg >= 0 && end <= sizes[0]);
         auto width = std::accumulate(sizes.begin() + 1, sizes.end(), 1, std::multiplies<int>());
         width *= this->proto().type_bytes();
 
-- 
2.43.0


From bfd7a0d3757176a74ede58ba759025e14c642085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:39 +0000
Subject: [PATCH 47/86] fix: looking up an operator on a device without memory
 device falls back to CPU

---
 src/global/fp16_operator_factory.cpp | 8 ++++++--
 src/global/operator_factory.cpp      | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/global/fp16_operator_factory.cpp b/src/global/fp16_operator_factory.cpp
index ada4e79..403f211 100644
--- a/src/global/fp16_operator_factory.cpp
+++ b/src/global/fp16_operator_factory.cpp
@@ -49,8 +49,12 @@ namespace ts {
 
         if (creator == nullptr) {
             // step 2.x: try find operator on memory device, if computing device failed
-            auto memory_device = ComputingMemory::Query(device_type);
-            creator = Fp16OperatorCreator::Query(memory_device, operator_name);
+            try {
+                auto memory_device = ComputingMemory::Query(device_type);
+                creator = Fp16OperatorCreator::Query(memory_device, operator_name);
+            } catch (const NoMemoryDeviceException &) {
+                // no memory device known for this device, go on with CPU version
+            }
         }
 
         if (creator == nullptr) {
diff --git a/src/global/operator_factory.cpp b/src/global/operator_factory.cpp
index 99ce607..b31ae0b 100644
--- a/src/global/operator_factory.cpp
+++ b/src/global/operator_factory.cpp
@@ -66,8 +66,12 @@ namespace ts {
 
         if (creator == nullptr) {
             // step 2.x: try find operator on memory device, if computing device failed
-            auto memory_device = ComputingMemory::Query(device_type);
-            creator = OperatorCreator::Query(memory_device, operator_name);
+            try {
+                auto memory_device = ComputingMemory::Query(device_type);
+                creator = OperatorCreator::Query(memory_device, operator_name);
+            } catch (const NoMemoryDeviceException &) {
+                // no memory device known for this device, go on with CPU version
+            }
         }
 
         if (creator == nullptr) {
-- 
2.43.0


From 1ecdd04b11e9b43508dc09f888b91eb19c8015f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:44 +0000
Subject: [PATCH 48/86] fix: a moved or read bubble has the shape of its source

---
 src/module/bubble.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/module/bubble.cpp b/src/module/bubble.cpp
index a377824..a153ec0 100644
--- a/src/module/bubble.cpp
+++ b/src/module/bubble.cpp
@@ -40,6 +40,7 @@ namespace ts {
         this->m_op = std::move(other.m_op);
         this->m_name = std::move(other.m_name);
         // this->m_output_count = other.m_output_count;
+        this->m_shape = std::move(other.m_shape);
         this->m_params = std::move(other.m_params);
         return *this;
     }
@@ -199,6 +200,7 @@ namespace ts {
                 }
             }
         }
+        m_shape = Shape();
         {
             auto it = m_params.find(RetentionParam::shape);
             if (it != m_params.end()) {
-- 
2.43.0


From 29cd32cd6636284f63fa1fd62e4cc63302e50fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:24 +0000
Subject: [PATCH 49/86] fix: CPU/GPU proposal and roi_align initialise their
 base, so missing required parameters are reported

---
 src/kernels/cpu/proposal.cpp  | 1 +
 src/kernels/cpu/roi_align.cpp | 1 +
 src/kernels/gpu/proposal.cpp  | 1 +
 src/kernels/gpu/roi_align.cpp | 1 +
 4 files changed, 4 insertions(+)

diff --git a/src/kernels/cpu/proposal.cpp b/src/kernels/cpu/proposal.cpp
index e6166a6..dec1ce7 100644
--- a/src/kernels/cpu/proposal.cpp
+++ b/src/kernels/cpu/proposal.cpp
@@ -24,6 +24,7 @@ namespace ts {
             int m_output_size;
 
             void init() override {
+                base::Proposal::init();
                 dragon::Workspace ws;
                 m_dragon = std::make_shared<dragon::ProposalOp<dragon::CPUContext>>(this, &ws);
                 auto max_level = tensor::to_int(get("max_level"));
diff --git a/src/kernels/cpu/roi_align.cpp b/src/kernels/cpu/roi_align.cpp
index dc51223..e07edcf 100644
--- a/src/kernels/cpu/roi_align.cpp
+++ b/src/kernels/cpu/roi_align.cpp
@@ -23,6 +23,7 @@ namespace ts {
             std::shared_ptr<dragon::ROIAlignOp<dragon::CPUContext>> m_dragon;
 
             void init() override {
+                base::ROIAlign::init();
                 dragon::Workspace ws;
                 m_dragon = std::make_shared<dragon::ROIAlignOp<dragon::CPUContext>>(this, &ws);
             }
diff --git a/src/kernels/gpu/proposal.cpp b/src/kernels/gpu/proposal.cpp
index 7e8e76d..b2e875f 100644
--- a/src/kernels/gpu/proposal.cpp
+++ b/src/kernels/gpu/proposal.cpp
@@ -24,6 +24,7 @@ namespace ts {
             int m_output_size;
 
             void init() override {
+                base::Proposal::init();
                 dragon::Workspace ws;
                 m_dragon = std::make_shared<dragon::ProposalOp<dragon::CUDAContext>>(this, &ws);
                 auto max_level = tensor::to_int(get("max_level"));
diff --git a/src/kernels/gpu/roi_align.cpp b/src/kernels/gpu/roi_align.cpp
index 5b67781..8991aba 100644
--- a/src/kernels/gpu/roi_align.cpp
+++ b/src/kernels/gpu/roi_align.cpp
@@ -24,6 +24,7 @@ namespace ts {
             std::shared_ptr<dragon::ROIAlignOp<dragon::CUDAContext>> m_dragon;
 
             void init() override {
+                base::ROIAlign::init();
                 dragon::Workspace ws;
                 m_dragon = std::make_shared<dragon::ROIAlignOp<dragon::CUDAContext>>(this, &ws);
             }
-- 
2.43.0


From 5590676d36a38f0f20affd2442442a4f372c1da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:55 +0000
Subject: [PATCH 50/86] fix: device context finalizes its handle on its own
 device when re-initialised or moved, and a failed query leaves it alone

---
 include/core/device_context.h | 4 ++++
 src/core/device_context.cpp   | 8 ++++++--
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/core/device_context.h b/include/core/device_context.h
index ceb05c4..0a7d9f2 100644
--- a/include/core/device_context.h
+++ b/include/core/device_context.h
@@ -66,12 +66,16 @@ namespace ts {
             *this = std::move(other);
         }
         DeviceContext &operator=(self &&other) TS_NOEXCEPT {
+            if (this == &other) return *this;
+            this->finalize();
 #define MOVE_MEMBER(member) this->member = std::move(other.member)
             MOVE_MEMBER(handle);
+            MOVE_MEMBER(origin_device);
             MOVE_MEMBER(computing_device);
             MOVE_MEMBER(memory_device);
             MOVE_MEMBER(m_device_admin);
 #undef MOVE_MEMBER
+            other.handle = nullptr; // only one context owns the handle
             return *this;
         }
     };
diff --git a/src/core/device_context.cpp b/src/core/device_context.cpp
index f4a9ed4..ed729a8 100644
--- a/src/core/device_context.cpp
+++ b/src/core/device_context.cpp
@@ -17,11 +17,15 @@ namespace ts {
     }
 
     void DeviceContext::initialize(ComputingDevice computing_device) {
+        auto memory_device = ComputingMemory::Query(computing_device);
+
+        // finalize the handle in use with the device it belongs to
+        finalize();
+
         this->computing_device = computing_device;
-        this->memory_device = ComputingMemory::Query(computing_device);
+        this->memory_device = memory_device;
         this->m_device_admin = DeviceAdmin::Query(computing_device.type());
 
-        finalize();
         if (m_device_admin != nullptr) {
             m_device_admin(&this->handle, computing_device.id(), DeviceAdmin::INITIALIZATION);
         }
-- 
2.43.0


From 85011e3ee30c5d2c02347b7b2d5add040fe1cfef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:55 +0000
Subject: [PATCH 51/86] fix: clone of a workbench binds its contexts after its
 runtime is in place

---
 src/runtime/workbench.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/runtime/workbench.cpp b/src/runtime/workbench.cpp
index 1dbc79c..cc19233 100644
--- a/src/runtime/workbench.cpp
+++ b/src/runtime/workbench.cpp
@@ -165,11 +165,13 @@ namespace ts {
         Workbench::shared dolly(new Workbench(
                 this->m_device_context.computing_device));
 
-        BindWorkbenchRuntime _bind_runtime(*dolly);
-
         dolly->m_inputs.resize(this->m_inputs.size());
         dolly->m_outputs.resize(this->m_outputs.size());
         dolly->m_runtime_context = this->m_runtime_context.clone();
+
+        // bind after runtime context is ready, as binding points into it
+        BindWorkbenchRuntime _bind_runtime(*dolly);
+
         if (this->m_desktop) {
             dolly->m_desktop = this->m_desktop->clone();
         }
-- 
2.43.0


From 5b57a4cac8f55805bd2d8865ecc955e86cbaf9cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:46 +0000
Subject: [PATCH 52/86] fix: encrypted reader checks the padding of the last
 block

---
 src/encryption/aes_fstream.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/encryption/aes_fstream.cpp b/src/encryption/aes_fstream.cpp
index f8832b4..a5a7f48 100644
--- a/src/encryption/aes_fstream.cpp
+++ b/src/encryption/aes_fstream.cpp
@@ -82,7 +82,18 @@ namespace ts {
             }
  
             if(iseof) {
-                m_master_datalen -= (int)(m_master[AES_BLOCKLEN - 1]); 
+                // the last block ends with npadding bytes of value npadding, see AESFileStreamWriter::close
+                const int npadding = (int)(m_master[AES_BLOCKLEN - 1]);
+                bool padded = npadding > 0 && npadding <= AES_BLOCKLEN;
+                for(int i = AES_BLOCKLEN - npadding; padded && i < AES_BLOCKLEN; ++i) {
+                    padded = m_master[i] == npadding;
+                }
+                if(!padded) {
+                    m_master_datalen = 0;
+                    TS_LOG_ERROR << "mode file read format is error!" << eject;
+                    return 0;
+                }
+                m_master_datalen -= npadding;
             } 
 
             
-- 
2.43.0


From fbc7d39d330047847ea98570418cfac383580019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:54 +0000
Subject: [PATCH 53/86] fix: report truncated streams when reading binary
 objects

---
 include/module/io/stream.h  | 16 +++++++++++++---
 src/module/loaders/open.cpp |  6 +++++-
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/include/module/io/stream.h b/include/module/io/stream.h
index 0c06b83..76b3238 100644
--- a/include/module/io/stream.h
+++ b/include/module/io/stream.h
@@ -10,6 +10,7 @@
 #include <string>
 
 #include <utils/api.h>
+#include <utils/except.h>
 
 
 namespace ts {
@@ -40,19 +41,28 @@ namespace ts {
     };
 
     namespace binio {
+        /**
+         * read exactly size bytes, throw Exception if the stream ends before
+         */
+        inline size_t read_bytes(StreamReader &stream, void *buffer, size_t size) {
+            auto read_size = stream.read(buffer, size);
+            if (read_size != size) throw Exception("Unexpected end of stream.");
+            return read_size;
+        }
+
         template<typename T>
         size_t read(StreamReader &stream, T &buffer) {
-            return stream.read(&buffer, sizeof(T));
+            return read_bytes(stream, &buffer, sizeof(T));
         }
 
         template<typename T>
         size_t read(StreamReader &stream, T *buffer, size_t size) {
-            return stream.read(buffer, sizeof(T) * size);
+            return read_bytes(stream, buffer, sizeof(T) * size);
         }
 
         template<typename T, size_t _Size>
         size_t read(StreamReader &stream, T (&buffer)[_Size]) {
-            return stream.read(buffer, sizeof(T) * _Size);
+            return read_bytes(stream, buffer, sizeof(T) * _Size);
         }
 
         template<typename T>
diff --git a/src/module/loaders/open.cpp b/src/module/loaders/open.cpp
index d34443e..3194468 100644
--- a/src/module/loaders/open.cpp
+++ b/src/module/loaders/open.cpp
@@ -12,7 +12,11 @@ Module::shared open_loader(StreamReaderV2 &stream, const void *buffer, int32_t b
 
     // 0. read header
     Header header;
-    read_size += header.externalize(stream);
+    try {
+        read_size += header.externalize(stream);
+    } catch (const Exception &) {
+        throw FormatMismatchException("Module format mismatch.");   // too short for a header
+    }
     if (header.code != TS_MODULE_CODE_V1) {
         throw FormatMismatchException("Module format mismatch.");
     }
-- 
2.43.0


From 1f4e2110692298faf2adf6bd11ad4704e8982101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:15 +0000
Subject: [PATCH 54/86] fix: loading a tensor from a file that cannot be opened
 is an error

---
 src/core/tensor_builder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/tensor_builder.cpp b/src/core/tensor_builder.cpp
index f352cd6..5a54ef8 100644
--- a/src/core/tensor_builder.cpp
+++ b/src/core/tensor_builder.cpp
@@ -290,7 +290,7 @@ namespace ts {
 
         Tensor load(const std::string &filename) {
             FileStreamReader stream(filename);
-            if (!stream.is_open()) return Tensor();
+            if (!stream.is_open()) TS_LOG_ERROR << "Can not access " << filename << eject;
             return load(stream);
         }
 
-- 
2.43.0


From 2128529fe655fe1f915e9890fff32abcb5f7b1bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:15 +0000
Subject: [PATCH 55/86] fix: rewinding a finished file stream makes it readable
 again

---
 src/module/io/fstream.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/module/io/fstream.cpp b/src/module/io/fstream.cpp
index 1cc4fa8..ec1e428 100644
--- a/src/module/io/fstream.cpp
+++ b/src/module/io/fstream.cpp
@@ -38,6 +38,7 @@ namespace ts {
     }
 
     void FileStreamReaderV2::rewind() {
+        m_stream.clear();
         m_stream.seekg(0, std::ios::beg);
     }
 
-- 
2.43.0


From ce5992f3a963ef54b6e3361a0a422be3c9627b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:15 +0000
Subject: [PATCH 56/86] fix: string streams given new content or cleared are
 usable again

---
 src/module/io/sstream.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/module/io/sstream.cpp b/src/module/io/sstream.cpp
index 177abbf..31ca271 100644
--- a/src/module/io/sstream.cpp
+++ b/src/module/io/sstream.cpp
@@ -14,6 +14,7 @@ namespace ts {
 
     void StringStreamReader::clear() {
         m_stream.str("");
+        m_stream.clear();
     }
 
     size_t StringStreamReader::read(void *buffer, size_t size) {
@@ -26,6 +27,7 @@ namespace ts {
 
     void StringStreamReader::str(const StringStreamReader::string &buffer) {
         m_stream.str(buffer);
+        m_stream.clear();
     }
 
     StringStreamWriter::string StringStreamWriter::str() const {
@@ -34,6 +36,7 @@ namespace ts {
 
     void StringStreamWriter::clear() {
         m_stream.str("");
+        m_stream.clear();
     }
 
     size_t StringStreamWriter::write(const void *buffer, size_t size) {
@@ -45,7 +48,8 @@ namespace ts {
             : m_stream(buffer) {}
 
     void StringStreamWriter::str(const StringStreamWriter::string &buffer) {
-        m_stream.str();
+        m_stream.str(buffer);
+        m_stream.clear();
     }
 
     StringStream::string StringStream::str() const {
@@ -54,6 +58,7 @@ namespace ts {
 
     void StringStream::clear() {
         m_stream.str("");
+        m_stream.clear();
     }
 
     size_t StringStream::read(void *buffer, size_t size) {
@@ -71,5 +76,6 @@ namespace ts {
 
     void StringStream::str(const StringStream::string &buffer) {
         m_stream.str(buffer);
+        m_stream.clear();
     }
 }
-- 
2.43.0


From bbd4c0709d98b8f320c9ac279eb54808344067c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:15 +0000
Subject: [PATCH 57/86] fix: linking nodes tolerates expired neighbours

---
 include/module/graph.h | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/include/module/graph.h b/include/module/graph.h
index f9b80b1..971b8f8 100644
--- a/include/module/graph.h
+++ b/include/module/graph.h
@@ -39,6 +39,12 @@ namespace ts {
         static void Link(const weak &node, const std::vector<weak> &inputs) {
             auto output = node.lock();
             if (!output) throw NullPointerException("Link expired node");
+            // all inputs must be there, before anything is changed
+            std::vector<shared> bottoms;
+            for (auto &input : inputs) {
+                bottoms.emplace_back(input.lock());
+                if (!bottoms.back()) throw NullPointerException("Link expired node");
+            }
             // first unlink pre-linked inputs
             for (auto &bottom : output->m_inputs) {
                 auto tmp = bottom.lock();
@@ -46,8 +52,7 @@ namespace ts {
                 auto &bottom_tops = tmp->m_outputs;
                 for (auto it = bottom_tops.begin(); it != bottom_tops.end();) {
                     auto top = it->lock();
-                    if (!top) continue;
-                    if (top == output) {
+                    if (!top || top == output) {
                         it = bottom_tops.erase(it);
                     } else {
                         ++it;
@@ -58,8 +63,7 @@ namespace ts {
             // link new nodes
             output->m_inputs.resize(inputs.size());
             for (size_t i = 0; i < inputs.size(); ++i) {
-                auto input = inputs[i].lock();
-                if (!input) throw NullPointerException("Link expired node");
+                auto &input = bottoms[i];
                 input->m_outputs.push_back(output);
                 output->m_inputs[i] = input;
             }
@@ -70,8 +74,10 @@ namespace ts {
             if (!old_ptr) throw NullPointerException("Link expired node");
             auto new_ptr = new_node.lock();
             if (!new_ptr) throw NullPointerException("Link expired node");
+            if (old_ptr == new_ptr) return;
             for (auto &output : old_ptr->outputs()) {
                 auto output_ptr = output.lock();
+                if (!output_ptr) continue;
                 for (auto &output_s_input : output_ptr->m_inputs) {
                     if (output_s_input.lock() != old_ptr) continue;
                     output_s_input = new_node;
@@ -145,7 +151,10 @@ namespace ts {
             auto raw_vector = ptr->outputs();
             std::vector<Node> out_vector;
             out_vector.reserve(raw_vector.size());
-            for (auto &node : raw_vector) out_vector.emplace_back(Node(node));
+            for (auto &node : raw_vector) {
+                if (node.expired()) continue;   // consumer has gone
+                out_vector.emplace_back(Node(node));
+            }
             return std::move(out_vector);
         }
 
-- 
2.43.0


From 33ae1b015efac500a7b75b01891fc1a9421427fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:15 +0000
Subject: [PATCH 58/86] fix: route keeps the slot of its source

---
 include/module/module.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/module/module.h b/include/module/module.h
index 65964be..24e176d 100644
--- a/include/module/module.h
+++ b/include/module/module.h
@@ -77,7 +77,7 @@ namespace ts {
         class Route {
         public:
             Route(int32_t in, int32_t in_out_slot, int32_t out, int32_t out_in_slot)
-                    : in(in), in_out_slot(in_out_slot), out(out), out_in_slot() {
+                    : in(in), in_out_slot(in_out_slot), out(out), out_in_slot(out_in_slot) {
             }
 
             Route() = default;
-- 
2.43.0


From 3f7c7c4c1402757610249b856d1831596747775b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:15 +0000
Subject: [PATCH 59/86] fix: fusion rejects negative slots and modules without
 outputs

---
 src/module/module.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/module/module.cpp b/src/module/module.cpp
index f39de8e..a58f352 100644
--- a/src/module/module.cpp
+++ b/src/module/module.cpp
@@ -440,8 +440,8 @@ namespace ts {
         for (auto &route : routes) {
             if (route.in < 0 || route.in >= int(submodules.size()) ||
                 route.out < 0 || route.out >= int(submodules.size()) ||
-                (route.in_out_slot < 0 && submodules[route.in]->outputs().size() > 1) ||
-                (route.out_in_slot < 0 && submodules[route.out]->inputs().size() > 1) ||
+                (route.in_out_slot < 0 && submodules[route.in]->outputs().size() != 1) ||
+                (route.out_in_slot < 0 && submodules[route.out]->inputs().size() != 1) ||
                 route.in_out_slot >= int(submodules[route.in]->outputs().size()) ||
                 route.out_in_slot >= int(submodules[route.out]->inputs().size())) {
                 TS_LOG_ERROR << "Got invalid route: [" << route.in << ", "
-- 
2.43.0


From 06b769ef39a5720344ffb9ad2c5e4fd544902f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:15 +0000
Subject: [PATCH 60/86] fix: renaming devices in a circle ends

---
 src/compiler/argparse.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/compiler/argparse.cpp b/src/compiler/argparse.cpp
index 605a140..aed479b 100644
--- a/src/compiler/argparse.cpp
+++ b/src/compiler/argparse.cpp
@@ -7,6 +7,7 @@
 #include <cctype>
 #include <cwctype>
 #include <regex>
+#include <set>
 
 #include <utils/log.h>
 
@@ -100,9 +101,10 @@ namespace ts {
 
     std::string ArgParser::map_device(const std::string &device) {
         auto stand_device = stand1(device);
+        std::set<std::string> mapped;   // map each device once, for there may be circles
         while (true) {
             auto it = this->m_map_device.find(stand_device);
-            if (it != this->m_map_device.end()) {
+            if (it != this->m_map_device.end() && mapped.insert(stand_device).second) {
                 stand_device = it->second;
             } else {
                 return stand2(stand_device);
-- 
2.43.0


From 977da73e5966778843e2d51c2dc57fbc17f557d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:15 +0000
Subject: [PATCH 61/86] fix: folding epsilon for float16 only touches the cast
 constant

---
 .../option/fp16_translator_option.cpp         | 29 ++++++++++---------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/src/compiler/option/fp16_translator_option.cpp b/src/compiler/option/fp16_translator_option.cpp
index b682d1f..9683800 100644
--- a/src/compiler/option/fp16_translator_option.cpp
+++ b/src/compiler/option/fp16_translator_option.cpp
@@ -47,7 +47,8 @@ ts::Fp16TranslatorOption::translate(const ts::ComputingDevice &device,
 
     //status 0: current node is output but stream is fp16
     if (output_flag && fp16_op_creator != nullptr) {
-        auto cast_fp32_node = bubble::op(node.bubble().name() + "_cast_fp32", name::layer::cast(), {node});
+        // outputs are found by name, so it is the one of the node
+        auto cast_fp32_node = bubble::op(node.bubble().name(), name::layer::cast(), {node});
         Tensor dtype = tensor::from<int>(DTYPE::FLOAT32);
         cast_fp32_node.bubble().set(name::dtype, dtype);
         translated_node = cast_fp32_node;
@@ -103,21 +104,18 @@ ts::Fp16TranslatorOption::translate(const ts::ComputingDevice &device,
 
     //NOTE:Advance calculations are used to improve accuracy on batch norm
     if (translated_node.bubble().op() == name::layer::batch_norm()) {
-        bool change_param = false;
-        auto epsilon = translated_node.bubble().get(name::epsilon);
-        auto variance_node = translated_node.inputs()[2];
-        DTYPE dtype = VOID;
-        while (!Bubble::IsEndPoint(variance_node.bubble().op())) {
-            variance_node = variance_node.inputs()[0];
-            if (variance_node.bubble().op() == Bubble::Const) {
-                dtype = variance_node.bubble().get(name::value).dtype();
-                change_param = true;
-            }
-        }
+        auto cast_node = translated_node.inputs()[2];
+        auto variance_node = inputs[2];
+        // only if variance is a const which has just been casted to fp16
+        bool change_param = cast_node != variance_node && variance_node.bubble().op() == Bubble::Const
+                            && translated_node.bubble().has(name::epsilon);
         if (change_param) {
+            auto epsilon = translated_node.bubble().get(name::epsilon);
             Tensor variance = variance_node.bubble().get(name::value);
-            Tensor epsilon_fp32 = tensor::cast(FLOAT32, epsilon);
-            Tensor variance_fp32 = tensor::cast(FLOAT32, variance);
+            DTYPE dtype = variance.dtype();
+            // clone, for cast shares memory with value of the same dtype
+            Tensor epsilon_fp32 = tensor::cast(FLOAT32, epsilon).clone();
+            Tensor variance_fp32 = tensor::cast(FLOAT32, variance).clone();
             auto epsilon_data = epsilon_fp32.data<float>();
             auto variance_data = variance_fp32.data<float>();
 
@@ -133,7 +131,10 @@ ts::Fp16TranslatorOption::translate(const ts::ComputingDevice &device,
             TS_UNUSED(test_e);
             TS_UNUSED(test_v);
             translated_node.bubble().set(name::epsilon, epsilon_temp);
+            // the const may be used elsewhere, so change a copy of it
+            variance_node = bubble::bubble(variance_node.bubble());
             variance_node.bubble().set(name::value, variance_temp);
+            Node::Link(cast_node, {variance_node});
         }
     }
 
-- 
2.43.0


From 5ac333f393641c3c797295aa69ed0cb4fb2f8c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:15 +0000
Subject: [PATCH 62/86] fix: packing does not change the source network

---
 .../option/pack_translator_option.cpp         | 74 ++++++++-----------
 1 file changed, 29 insertions(+), 45 deletions(-)

diff --git a/src/compiler/option/pack_translator_option.cpp b/src/compiler/option/pack_translator_option.cpp
index 3c83991..2f52dcf 100644
--- a/src/compiler/option/pack_translator_option.cpp
+++ b/src/compiler/option/pack_translator_option.cpp
@@ -26,6 +26,13 @@ static bool has_defined_op(const ts::ComputingDevice &device, const std::string
     return false;
 }
 
+// only such const can be transposed or packed
+static bool is_const_float(const ts::Node &node, int dims) {
+    if (node.bubble().op() != ts::Bubble::Const) return false;
+    auto value = node.bubble().get(ts::name::value);
+    return value.dtype() == ts::FLOAT32 && value.dims() == dims && value.fields_count() == 1;
+}
+
 bool ts::PackTranslatorOption::translate(const ComputingDevice &device, const Node node,
     Node &translated_node, const std::string &params, bool output_flag) const {
     auto op_name = node.bubble().op();
@@ -59,64 +66,37 @@ bool ts::PackTranslatorOption::translate(const ComputingDevice &device, const No
         auto inputs = node.inputs();
         auto A_node = inputs[0],B_node = inputs[1],C_node = inputs[2];
 
-        float alpha = tensor::to_float(node.bubble().get(name::alpha));
-        float beta = tensor::to_float(node.bubble().get(name::beta));
-        bool transA = tensor::to_bool(node.bubble().get(name::transA));
-        bool transB = tensor::to_bool(node.bubble().get(name::transB));
+        // these are optional, the defaults are those of operator gemm
+        auto &gemm = node.bubble();
+        float alpha = gemm.has(name::alpha) ? tensor::to_float(gemm.get(name::alpha)) : 1.0f;
+        float beta = gemm.has(name::beta) ? tensor::to_float(gemm.get(name::beta)) : 1.0f;
+        bool transA = gemm.has(name::transA) && tensor::to_bool(gemm.get(name::transA));
+        bool transB = gemm.has(name::transB) && tensor::to_bool(gemm.get(name::transB));
 
         //NOTE:Can not translate in this case,inner_product not support now
-        if (A_node.bubble().op() != Bubble::Const && transA) {
+        if (transA && !is_const_float(A_node, 2)) {
             Node::Link(translated_node, node.inputs());
             return true;
         }
 
-        //transpose const if trans is true
+        //transpose const if trans is true, in a copy as the const may be used elsewhere
         auto A_trans_node = A_node;
-        auto B_trans_node = B_node;
-        if (A_node.bubble().op() == Bubble::Const && transA) {
+        if (transA) {
             auto A_tensor = A_node.bubble().get(name::value);
-            auto dtype = A_tensor.dtype();
             auto shape = A_tensor.sizes();
-            Shape transposed_shape({ shape[1], shape[0] });
-            Tensor transposed(dtype, transposed_shape);
-            switch (dtype) {
-#define DECLARE_COMPUTE_RUN(DTYPE, TYPE) \
-            case DTYPE: { cpu::math<TYPE, TYPE>::matrix_transpose(A_tensor.data<TYPE>(), transposed.data<TYPE>(), shape[0], shape[1]); break; }
-                DECLARE_COMPUTE_RUN(FLOAT32, float);
-#undef DECLARE_COMPUTE_RUN
-                default: {
-                    TS_LOG_ERROR << "Pack translator not support data type(" << dtype << "): " << type_str(dtype) << eject;
-                    break;
-                }
-            }
+            Tensor transposed(FLOAT32, Shape({ shape[1], shape[0] }));
+            cpu::math<float, float>::matrix_transpose(A_tensor.data<float>(), transposed.data<float>(), shape[0], shape[1]);
+            A_trans_node = bubble::bubble(A_node.bubble());
             A_trans_node.bubble().set(name::value, transposed);
         }
 
-        if (B_node.bubble().op() == Bubble::Const && transB) {
-            auto B_tensor = B_node.bubble().get(name::value);
-            auto dtype = B_tensor.dtype();
-            auto shape = B_tensor.sizes();
-            Shape transposed_shape({ shape[1], shape[0] });
-            Tensor transposed(dtype, transposed_shape);
-            switch (dtype) {
-#define DECLARE_COMPUTE_RUN(DTYPE, TYPE) \
-            case DTYPE: { cpu::math<TYPE, TYPE>::matrix_transpose(B_tensor.data<TYPE>(), transposed.data<TYPE>(), shape[0], shape[1]); break; }
-                DECLARE_COMPUTE_RUN(FLOAT32, float);
-#undef DECLARE_COMPUTE_RUN
-                default: {
-                    TS_LOG_ERROR << "Pack translator not support data type(" << dtype << "): " << type_str(dtype) << eject;
-                    break;
-                }
-            }
-            B_trans_node.bubble().set(name::value, transposed);
-        }
+        auto inner_prod_node = bubble::op(name + "_inner_prod", name::layer::inner_prod(), { A_trans_node, B_node });
+        inner_prod_node.bubble().set("transpose", tensor::from<bool>(transB));
 
-        auto inner_prod_node = bubble::op(name + "_inner_prod", name::layer::inner_prod(), { A_trans_node, B_trans_node });
-
-        auto alpha_node = bubble::data(name + "_alpha", node.bubble().get(name::alpha));
+        auto alpha_node = bubble::data(name + "_alpha", tensor::from<float>(alpha));
         auto alpha_mul_node = bubble::op(name + "_alpha_mul", name::layer::mul(), { alpha_node, inner_prod_node });
 
-        auto beta_node = bubble::data(name + "_beta", node.bubble().get(name::beta));
+        auto beta_node = bubble::data(name + "_beta", tensor::from<float>(beta));
         auto beta_mul_node = bubble::op(name + "_beta_mul", name::layer::mul(), { beta_node, C_node });
 
         if (ts::near(beta, float(0))) {
@@ -148,7 +128,10 @@ bool ts::PackTranslatorOption::translate(const ComputingDevice &device, const No
         kernel_node = inputs[2];
     }
 
-    if (kernel_node->op() != Bubble::Const) {
+    bool is_conv = op_name == name::layer::conv2d() || op_name == name::layer::conv2d_v2();
+    bool already_packed = node.bubble().has(name::kernel_packed) && tensor::to_bool(node.bubble().get(name::kernel_packed));
+
+    if (already_packed || !is_const_float(kernel_node, is_conv ? 4 : 2)) {
         Node::Link(translated_node, node.inputs());
         return true;
     }
@@ -235,7 +218,8 @@ bool ts::PackTranslatorOption::translate(const ComputingDevice &device, const No
     }
 
 
-    Node kernel_packed_node = kernel_node;
+    // the const may be used elsewhere, so pack a copy of it
+    Node kernel_packed_node = bubble::bubble(kernel_node.bubble());
     kernel_packed_node.bubble().set(name::value, kernel_packed);
     translated_node.bubble().set(name::kernel_packed, tensor::from<bool>(true));
 
-- 
2.43.0


From b6965868d93c3a69ecf53569059b210f9f293765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:15 +0000
Subject: [PATCH 63/86] fix: winograd only rewrites convolutions with constant
 kernels

---
 src/compiler/option/winograd_zipper_option.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/compiler/option/winograd_zipper_option.cpp b/src/compiler/option/winograd_zipper_option.cpp
index e9622cd..d4e5529 100644
--- a/src/compiler/option/winograd_zipper_option.cpp
+++ b/src/compiler/option/winograd_zipper_option.cpp
@@ -58,11 +58,13 @@ namespace ts {
         }
         if (op_name == name::layer::conv2d()) {
             TS_AUTO_CHECK(inputs.size() == 2);
+            if (inputs[1].bubble().op() != Bubble::Const) return false;
             kernel_tensor = inputs[1].bubble().get(name::value);
             padding_tensor = bubble.get(name::padding);
         }
         else {
             TS_AUTO_CHECK(inputs.size() == 3);
+            if (inputs[2].bubble().op() != Bubble::Const) return false;
             kernel_tensor = inputs[2].bubble().get(name::value);
         }
         auto kernel_shape = kernel_tensor.sizes();
-- 
2.43.0


From 175ed181ca13b2220f67d5aaf5a8ff8dc40919ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:15 +0000
Subject: [PATCH 64/86] fix: translated outputs that are read inside keep their
 wrapper

---
 src/compiler/translater.cpp | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/compiler/translater.cpp b/src/compiler/translater.cpp
index 59488ec..99f4d70 100644
--- a/src/compiler/translater.cpp
+++ b/src/compiler/translater.cpp
@@ -11,6 +11,8 @@
 
 #include "module/menu.h"
 
+#include <unordered_set>
+
 namespace ts {
     Translator::Translator(const ComputingDevice &device)
         : m_device(device){
@@ -26,7 +28,8 @@ namespace ts {
 
         //check ready map
         auto ready_it = ready_map.find(node);
-        if (ready_it != ready_map.end()) {
+        bool ready = ready_it != ready_map.end();
+        if (ready && (!output_flag || Bubble::IsEndPoint(node.bubble().op()))) {
             return ready_it->second;
         }
 
@@ -39,6 +42,10 @@ namespace ts {
 
         std::vector<Node> translated_inputs;
         auto input_nodes = translated_node.inputs();
+        // an output other nodes have read already only needs what is put behind an output
+        if (ready && !(input_nodes.size() == 1 && input_nodes[0] == node)) {
+            return ready_it->second;
+        }
         for (auto &input : input_nodes) {
             auto translated_input = translate_node(input, ready_map, device, options, params, false);
             translated_inputs.emplace_back(translated_input);
@@ -96,6 +103,19 @@ namespace ts {
         //std::cout << "+++++++++++++++++ translated graph ++++++++++++++++++++++" << std::endl;
         //plot_graph(std::cout, traslated_nodes);
 
+        // options may leave nodes behind which still read nodes of the original graph
+        std::unordered_set<Node> used;
+        std::vector<Node> walker = traslated_nodes;
+        while (!walker.empty()) {
+            auto node = walker.back();
+            walker.pop_back();
+            if (!used.insert(node).second) continue;
+            for (auto &input : node.inputs()) walker.emplace_back(input);
+        }
+        for (auto &node : temp_graph.nodes()) {
+            if (used.find(node) == used.end()) Node::Link(node, {});
+        }
+
         new_module = Module::Load(temp_graph, traslated_nodes);
         new_module->sort_inputs(translated_inputs);
         return new_module;
-- 
2.43.0


From f38c3485bee8e0a165f1f3521c5c80f2c17d7520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:24 +0000
Subject: [PATCH 65/86] fix: split graphs are wired through their own inputs
 and outputs

---
 src/compiler/fence/splitter.cpp | 89 +++++++++++++++------------------
 1 file changed, 40 insertions(+), 49 deletions(-)

diff --git a/src/compiler/fence/splitter.cpp b/src/compiler/fence/splitter.cpp
index 9a1c05f..3d46b2b 100644
--- a/src/compiler/fence/splitter.cpp
+++ b/src/compiler/fence/splitter.cpp
@@ -715,36 +715,29 @@ namespace ts {
         // build return values
         MainGraph main;
 
+        std::unordered_map<Node, Node> map_output2main; // output of sub graph to node in main graph
+
         for (auto &io : sub_graph_ios) {
-            std::vector<Node> sub_outputs;  // new node contain all fused module node
             std::vector<Node> sub_inputs;   // new node contain all input params
 
-            std::unordered_map<Node, Node> map_origin2sub;
-            std::vector<Node> sub_node;
+            std::unordered_map<Node, Node> map_input2param;
 
             // new output
+            std::ostringstream oss;
+            for (size_t j = 0; j < io.outputs.size(); ++j) {
+                if (j) oss << "&";
+                oss << io.outputs[j]->name();
+            }
+            auto sub_node = bubble::op(oss.str(), submodule, {});
             if (io.outputs.size() == 1) {
-                auto sub = bubble::op(io.outputs[0]->name(), submodule, {});
-                sub_outputs.push_back(sub);
-                map_origin2sub.insert(std::make_pair(io.outputs[0], sub));
-                Node::Link(sub, io.inputs);
-                sub_node.emplace_back(sub);
+                map_output2main.insert(std::make_pair(io.outputs[0], sub_node));
             } else {
-                std::ostringstream oss;
-                for (size_t j = 0; j < io.outputs.size(); ++j) {
-                    if (j) oss << "&";
-                    oss << io.outputs[j]->name();
-                }
-                auto sub = bubble::op(oss.str(), submodule, {});
                 for (size_t j = 0; j < io.outputs.size(); ++j) {
                     auto &n = io.outputs[j];
-                    auto out = bubble::op(n->name(), "_field", {sub});
+                    auto out = bubble::op(n->name(), "_field", {sub_node});
                     out->set("offset", tensor::build(INT32, int32_t(j)));
-                    sub_outputs.push_back(out);
-                    map_origin2sub.insert(std::make_pair(n, out));
+                    map_output2main.insert(std::make_pair(n, out));
                 }
-                Node::Link(sub, io.inputs);
-                sub_node.emplace_back(sub);
             }
             // new input
             for (auto &n : io.inputs) {
@@ -756,47 +749,45 @@ namespace ts {
                     in->shape(n->shape());
                 }
                 sub_inputs.emplace_back(in);
-                map_origin2sub.insert(std::make_pair(n, in));
+                map_input2param.insert(std::make_pair(n, in));
             }
-            for (auto &n : io.inputs) {
-                auto n_outputs = n.outputs();
-                for (auto &t : n_outputs) {
-                    if (color.color(t) != io.color) continue;
-                    std::vector<Node> t_links;
-                    for (auto &k : t.inputs()) {
-                        auto it = map_origin2sub.find(k);
-                        if (it == map_origin2sub.end()) {
-                            t_links.emplace_back(k);
-                        } else {
-                            t_links.emplace_back(it->second);
-                        }
-                    }
-                    Node::Link(t, t_links);
+            // nodes in this sub graph read its params
+            for (auto &t : color.graph(io.color)) {
+                auto t_links = t.inputs();
+                bool changed = false;
+                for (auto &k : t_links) {
+                    auto it = map_input2param.find(k);
+                    if (it == map_input2param.end()) continue;
+                    k = it->second;
+                    changed = true;
                 }
+                if (changed) Node::Link(t, t_links);
             }
-            // replace output
+            SubGraph sub;
+            sub.m_graph = g;
+            sub.m_inputs = sub_inputs;
+            sub.m_outputs = io.outputs;
+            main.m_sub_graphs.emplace_back(sub);
+            main.m_sub_nodes.emplace_back(sub_node);
+        }
+        // link sub node in main graph, the inputs may be outputs of other sub graphs
+        for (size_t i = 0; i < sub_graph_ios.size(); ++i) {
+            Node::Link(main.m_sub_nodes[i], sub_graph_ios[i].inputs);
+        }
+        // replace output, sub graphs only have their own nodes inside now
+        for (auto &io : sub_graph_ios) {
             for (auto &n : io.outputs) {
                 auto n_outputs = n.outputs();
                 for (auto &t : n_outputs) {
                     if (color.color(t) == io.color) continue;
-                    std::vector<Node> t_links;
-                    for (auto &k : t.inputs()) {
-                        auto it = map_origin2sub.find(k);
-                        if (it == map_origin2sub.end()) {
-                            t_links.emplace_back(k);
-                        } else {
-                            t_links.emplace_back(it->second);
-                        }
+                    auto t_links = t.inputs();
+                    for (auto &k : t_links) {
+                        auto it = map_output2main.find(k);
+                        if (it != map_output2main.end()) k = it->second;
                     }
                     Node::Link(t, t_links);
                 }
             }
-            SubGraph sub;
-            sub.m_graph = g;
-            sub.m_inputs = sub_inputs;
-            sub.m_outputs = io.outputs;
-            main.m_sub_graphs.emplace_back(sub);
-            main.m_sub_nodes.emplace_back(sub_node[0]);
         }
 
         auto main_inputs = bottoms;
-- 
2.43.0


From 2f9ba3723e02dea3ee72503827483f0809f362d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:24 +0000
Subject: [PATCH 66/86] fix: splitter limits to one input and one output cut
 connected graphs

---
 src/compiler/fence/splitter.cpp | 83 +++++++++++----------------------
 1 file changed, 27 insertions(+), 56 deletions(-)

diff --git a/src/compiler/fence/splitter.cpp b/src/compiler/fence/splitter.cpp
index 3d46b2b..925b0d0 100644
--- a/src/compiler/fence/splitter.cpp
+++ b/src/compiler/fence/splitter.cpp
@@ -450,41 +450,34 @@ namespace ts {
 
         // get inputs and outputs
         std::unordered_set<Node> graph_tops;
-        for (auto &n : top_edge) {
-            for (auto &t : n.inputs()) {
-                if (in_this_graph(t)) {
-                    graph_tops.insert(t);
-                }
-            }
-        }
         std::unordered_set<Node> graph_bottoms;
-        for (auto &n : bottom_edge) {
-            for (auto &t : graph_tops) {
-                if (ref.ref(t, n)) {
-                    graph_bottoms.insert(n);
-                    break;
+        auto update_tops_and_bottoms = [&]() {
+            graph_tops.clear();
+            graph_bottoms.clear();
+            for (auto &n : color.graph(i)) {
+                for (auto &t : n.inputs()) {
+                    if (!in_this_graph(t)) graph_bottoms.insert(t);
                 }
+                if (!all_in_this_graph(n.outputs())) graph_tops.insert(n);
             }
-        }
+        };
+        update_tops_and_bottoms();
 
         if (config.single_input) {
             // update graph to match single input
             while (graph_bottoms.size() > 1) {
-                if (color.graph(i).size() <= 1) {
-                    color.clear(i);
-                    return io;  // not a graph
-                }
-                // find next bottom
-                std::unordered_set<Node> may_remove_set;
-                for (auto &n : graph_bottoms) {
-                    for (auto &t : n.outputs()) {
-                        if (in_this_graph(t)) {
-                            may_remove_set.insert(t);
-                        }
+                // find lowest node reading input, rather not the node started from
+                std::vector<Node> may_remove;
+                for (auto &n : color.graph(i)) {
+                    for (auto &t : n.inputs()) {
+                        if (in_this_graph(t)) continue;
+                        may_remove.push_back(n);
+                        break;
                     }
                 }
-                std::vector<Node> may_remove(may_remove_set.begin(), may_remove_set.end());
-                std::sort(may_remove.begin(), may_remove.end(), color.first_later());
+                std::sort(may_remove.begin(), may_remove.end(), [&](const Node &a, const Node &b) {
+                    return color.serial(a) < color.serial(b);
+                });
                 Node target = may_remove[0];
                 bool side = !ref.ref(node, target);
                 for (size_t j = 1; j < may_remove.size(); ++j) {
@@ -504,38 +497,16 @@ namespace ts {
                         side = !ref.ref(node, target);
                     }
                 }
-                // remove from graph
-                color.clear(target);    // not in this graph
-                // update bottom edge
-                std::unordered_set<Node> remain_edge;
-                may_remove_set.erase(target);
-                for (auto &n : may_remove_set) {
-                    auto ns = n.inputs();
-                    remain_edge.insert(ns.begin(), ns.end());
+                // remove it from graph, with all nodes it needs
+                std::vector<Node> removed = {target};
+                for (auto &n : color.graph(i)) {
+                    if (n != target && ref.ref(target, n)) removed.push_back(n);
                 }
-                std::unordered_set<Node> new_edge;
-                std::set_intersection(std::begin(graph_bottoms), std::end(graph_bottoms),
-                                      std::begin(remain_edge), std::end(remain_edge),
-                                      std::inserter(new_edge, new_edge.end()));
-                new_edge.insert(target);
-                graph_bottoms = new_edge;
-                if (graph_tops.find(target) != graph_tops.end()) {
-                    graph_tops.erase(target);
-                    for (auto it = graph_bottoms.begin(); it != graph_bottoms.end(); ) {
-                        bool found_ref = false;
-                        for (auto &t : graph_tops) {
-                            if (ref.ref(t, *it)) {
-                                found_ref = true;
-                                break;
-                            }
-                        }
-                        if (found_ref) {
-                            ++it;
-                        } else {
-                            it = graph_bottoms.erase(it);
-                        }
-                    }
+                for (auto &n : removed) color.clear(n);
+                if (color.graph(i).empty()) {
+                    return io;  // not a graph
                 }
+                update_tops_and_bottoms();
             }
         }
 
-- 
2.43.0


From 79b29de0f810a90c91d9f37bb597feed101f0060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:24 +0000
Subject: [PATCH 67/86] fix: splitter keeps the main graph free of loops
 through two sub graphs

---
 src/compiler/fence/splitter.cpp | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/compiler/fence/splitter.cpp b/src/compiler/fence/splitter.cpp
index 925b0d0..50ef333 100644
--- a/src/compiler/fence/splitter.cpp
+++ b/src/compiler/fence/splitter.cpp
@@ -32,6 +32,22 @@ namespace ts {
             }
         }
 
+        // the nodes will be one node, which refs all they ref, and is in all that ref one of them
+        void merge(const std::unordered_set<Node> &nodes) {
+            std::unordered_set<Node> refs = nodes;
+            for (auto &node : nodes) {
+                auto it = m_cache.find(node);
+                if (it != m_cache.end()) refs.insert(it->second.begin(), it->second.end());
+            }
+            for (auto &top_refs : m_cache) {
+                bool found = nodes.find(top_refs.first) != nodes.end();
+                for (auto it = nodes.begin(); !found && it != nodes.end(); ++it) {
+                    found = top_refs.second.find(*it) != top_refs.second.end();
+                }
+                if (found) top_refs.second.insert(refs.begin(), refs.end());
+            }
+        }
+
     private:
         std::unordered_map<Node, std::unordered_set<Node>> m_cache;
 
@@ -591,6 +607,7 @@ namespace ts {
                 }
             } else {
                 sub_graph_ios.push_back(io);
+                ref.merge(color.graph(io.color));   // no other sub graph can make loop with this one
                 for (auto &bottom : io.inputs) {
                     if (color.color(bottom) >= 0) continue;
                     queue.push(bottom);
-- 
2.43.0


From 5740c6132efd9f649225e1f8541fa4c563c5f576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:24 +0000
Subject: [PATCH 68/86] fix: splitter goes on below graphs of route nodes

---
 src/compiler/fence/splitter.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/compiler/fence/splitter.cpp b/src/compiler/fence/splitter.cpp
index 50ef333..7da3f3c 100644
--- a/src/compiler/fence/splitter.cpp
+++ b/src/compiler/fence/splitter.cpp
@@ -543,6 +543,7 @@ namespace ts {
 
                 io.is_sub_graph = true;
                 io.color = 0;
+                io.inputs = std::vector<Node>(graph_bottoms.begin(), graph_bottoms.end());
                 return io;
             }
         }
@@ -634,7 +635,7 @@ namespace ts {
         // remove small graph
         {
             for (auto it = sub_graph_ios.begin(); it != sub_graph_ios.end(); ) {
-                if (color.graph(it->color).size() < min_graph_size) {
+                if (int64_t(color.graph(it->color).size()) < min_graph_size) {
                     it = sub_graph_ios.erase(it);
                 } else {
                     ++it;
-- 
2.43.0


From 4f5250e98d31c15eb0b110184576ae0cd1fefdb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:24 +0000
Subject: [PATCH 69/86] fix: splitter does not cut graphs without inputs

---
 src/compiler/fence/splitter.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/compiler/fence/splitter.cpp b/src/compiler/fence/splitter.cpp
index 7da3f3c..e5f6115 100644
--- a/src/compiler/fence/splitter.cpp
+++ b/src/compiler/fence/splitter.cpp
@@ -535,7 +535,8 @@ namespace ts {
                     break;
                 }
             }
-            if (!has_support) {
+            // a graph without any input can not be a node in main graph
+            if (!has_support || graph_bottoms.empty()) {
                 auto route_graph = color.graph(i);
                 for (auto &n : route_graph) {
                     color.color(n, 0);
-- 
2.43.0


From 2cf0ec0cdcb83a1e633e5b61f91f700ef1eb83f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:58 +0000
Subject: [PATCH 70/86] fix: a cloned image filter keeps its steps

---
 src/runtime/image_filter.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/runtime/image_filter.cpp b/src/runtime/image_filter.cpp
index 37452e9..0e7170c 100644
--- a/src/runtime/image_filter.cpp
+++ b/src/runtime/image_filter.cpp
@@ -14,6 +14,7 @@
 #include "runtime/workbench.h"
 
 #include <numeric>
+#include <unordered_map>
 
 namespace ts {
 
@@ -208,8 +209,18 @@ namespace ts {
     ImageFilter::ImageFilter(const ImageFilter::Implement &other) {
         m_impl->m_computing_device = other.m_computing_device;
         this->clear();
-        m_impl->m_program = other.m_program->clone();
-        m_impl->m_compiled = true;
+        // the graph is cloned too, so that the steps can be read and steps can be added
+        m_impl->m_graph = std::make_shared<Graph>();
+        std::unordered_map<Node, Node> cloned_nodes;
+        for (auto &node : other.m_graph->nodes()) {
+            auto dolly = m_impl->m_graph->make(node.bubble());
+            std::vector<Node> inputs;
+            for (auto &input : node.inputs()) inputs.push_back(cloned_nodes.at(input));
+            if (!inputs.empty()) Node::Link(dolly, inputs);
+            cloned_nodes.insert(std::make_pair(node, dolly));
+        }
+        if (other.m_program) m_impl->m_program = other.m_program->clone();
+        m_impl->m_compiled = other.m_compiled;
     }
 
     const Graph &ImageFilter::graph() const {
-- 
2.43.0


From c4ed8d56e4da26e37809aac152877599f2ab9681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:58 +0000
Subject: [PATCH 71/86] fix: image filters keep the element type of the image

---
 src/runtime/image_filter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/runtime/image_filter.cpp b/src/runtime/image_filter.cpp
index 0e7170c..b4c7768 100644
--- a/src/runtime/image_filter.cpp
+++ b/src/runtime/image_filter.cpp
@@ -39,7 +39,7 @@ namespace ts {
         m_impl->m_program.reset();
         m_impl->m_graph = std::make_shared<Graph>();
         ctx::bind<Graph> _bind_graph(m_impl->m_graph.get());
-        bubble::param(serial_name(), UINT8, {-1, -1, -1});    // add input param to graph
+        bubble::param(serial_name(), Shape({-1, -1, -1}));    // add input param to graph, of any type
         m_impl->m_compiled = false;
     }
 
-- 
2.43.0


From 046962bc4d181a5fbfd5341efc7a3f896245eb62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:58 +0000
Subject: [PATCH 72/86] fix: cubic resize and affine_sample2d stay inside
 images of less than four lines

---
 src/kernels/cpu/affine_sample2d.cpp | 75 +++++++++++++++++------------
 src/kernels/cpu/resize2d.cpp        | 72 +++++++++++++++------------
 2 files changed, 85 insertions(+), 62 deletions(-)

diff --git a/src/kernels/cpu/affine_sample2d.cpp b/src/kernels/cpu/affine_sample2d.cpp
index 55f3d08..fb9081f 100644
--- a/src/kernels/cpu/affine_sample2d.cpp
+++ b/src/kernels/cpu/affine_sample2d.cpp
@@ -266,21 +266,32 @@ namespace ts {
                         //continue;
                     }
                     else{
-                        if (sy < 1) {
-                            fy = 0;
-                            sy = 1;
+                        // images of less than 4 lines have no inner part to stay in
+                        if (x_height >= 4) {
+                            if (sy < 1) {
+                                fy = 0;
+                                sy = 1;
+                            }
+                            if (sy >= x_height - 3) {
+                                fy = 0;
+                                sy = x_height - 3;
+                            }
                         }
-                        if (sy >= x_height - 3) {
-                            fy = 0;
-                            sy = x_height - 3;
+                        if (x_width >= 4) {
+                            if (sx < 1) {
+                                fx = 0;
+                                sx = 1;
+                            }
+                            if (sx >= x_width - 3) {
+                                fx = 0;
+                                sx = x_width - 3;
+                            }
                         }
-                        if (sx < 1) {
-                            fx = 0;
-                            sx = 1;
-                        }
-                        if (sx >= x_width - 3) {
-                            fx = 0;
-                            sx = x_width - 3;
+
+                        int ys[4], xs[4];
+                        for (int k = 0; k < 4; ++k) {
+                            ys[k] = std::max(0, std::min(sy - 1 + k, x_height - 1));
+                            xs[k] = std::max(0, std::min(sx - 1 + k, x_width - 1));
                         }
 
                         coeffsY[0] = ((A * (fy + 1) - 5 * A) * (fy + 1) + 8 * A) * (fy + 1) - 4 * A;
@@ -295,25 +306,25 @@ namespace ts {
 
                         for (int k = 0; k < channels; k++) {
                             pdst[m * dstrows + n * channels + k] = clamp<T, double>(((
-                                    psrc[(sy - 1) * srcrows + (sx - 1) * channels + k] * coeffsX[0] * coeffsY[0] +
-                                    psrc[(sy) * srcrows + (sx - 1) * channels + k] * coeffsX[0] * coeffsY[1] +
-                                    psrc[(sy + 1) * srcrows + (sx - 1) * channels + k] * coeffsX[0] * coeffsY[2] +
-                                    psrc[(sy + 2) * srcrows + (sx - 1) * channels + k] * coeffsX[0] * coeffsY[3] +
-
-                                    psrc[(sy - 1) * srcrows + (sx) * channels + k] * coeffsX[1] * coeffsY[0] +
-                                    psrc[(sy) * srcrows + (sx) * channels + k] * coeffsX[1] * coeffsY[1] +
-                                    psrc[(sy + 1) * srcrows + (sx) * channels + k] * coeffsX[1] * coeffsY[2] +
-                                    psrc[(sy + 2) * srcrows + (sx) * channels + k] * coeffsX[1] * coeffsY[3] +
-
-                                    psrc[(sy - 1) * srcrows + (sx + 1) * channels + k] * coeffsX[2] * coeffsY[0] +
-                                    psrc[(sy) * srcrows + (sx + 1) * channels + k] * coeffsX[2] * coeffsY[1] +
-                                    psrc[(sy + 1) * srcrows + (sx + 1) * channels + k] * coeffsX[2] * coeffsY[2] +
-                                    psrc[(sy + 2) * srcrows + (sx + 1) * channels + k] * coeffsX[2] * coeffsY[3] +
-
-                                    psrc[(sy - 1) * srcrows + (sx + 2) * channels + k] * coeffsX[3] * coeffsY[0] +
-                                    psrc[(sy) * srcrows + (sx + 2) * channels + k] * coeffsX[3] * coeffsY[1] +
-                                    psrc[(sy + 1) * srcrows + (sx + 2) * channels + k] * coeffsX[3] * coeffsY[2] +
-                                    psrc[(sy + 2) * srcrows + (sx + 2) * channels + k] * coeffsX[3] * coeffsY[3])));
+                                    psrc[ys[0] * srcrows + xs[0] * channels + k] * coeffsX[0] * coeffsY[0] +
+                                    psrc[ys[1] * srcrows + xs[0] * channels + k] * coeffsX[0] * coeffsY[1] +
+                                    psrc[ys[2] * srcrows + xs[0] * channels + k] * coeffsX[0] * coeffsY[2] +
+                                    psrc[ys[3] * srcrows + xs[0] * channels + k] * coeffsX[0] * coeffsY[3] +
+
+                                    psrc[ys[0] * srcrows + xs[1] * channels + k] * coeffsX[1] * coeffsY[0] +
+                                    psrc[ys[1] * srcrows + xs[1] * channels + k] * coeffsX[1] * coeffsY[1] +
+                                    psrc[ys[2] * srcrows + xs[1] * channels + k] * coeffsX[1] * coeffsY[2] +
+                                    psrc[ys[3] * srcrows + xs[1] * channels + k] * coeffsX[1] * coeffsY[3] +
+
+                                    psrc[ys[0] * srcrows + xs[2] * channels + k] * coeffsX[2] * coeffsY[0] +
+                                    psrc[ys[1] * srcrows + xs[2] * channels + k] * coeffsX[2] * coeffsY[1] +
+                                    psrc[ys[2] * srcrows + xs[2] * channels + k] * coeffsX[2] * coeffsY[2] +
+                                    psrc[ys[3] * srcrows + xs[2] * channels + k] * coeffsX[2] * coeffsY[3] +
+
+                                    psrc[ys[0] * srcrows + xs[3] * channels + k] * coeffsX[3] * coeffsY[0] +
+                                    psrc[ys[1] * srcrows + xs[3] * channels + k] * coeffsX[3] * coeffsY[1] +
+                                    psrc[ys[2] * srcrows + xs[3] * channels + k] * coeffsX[3] * coeffsY[2] +
+                                    psrc[ys[3] * srcrows + xs[3] * channels + k] * coeffsX[3] * coeffsY[3])));
 
                         }
                     }
diff --git a/src/kernels/cpu/resize2d.cpp b/src/kernels/cpu/resize2d.cpp
index 4c9f64c..b45da4f 100644
--- a/src/kernels/cpu/resize2d.cpp
+++ b/src/kernels/cpu/resize2d.cpp
@@ -1,6 +1,7 @@
 #include <kernels/cpu/resize2d.h>
 #include <core/tensor_builder.h>
 #include <memory>
+#include <algorithm>
 #include <global/operator_factory.h>
 #include <backend/name.h>
 #include <core/device.h>
@@ -84,15 +85,21 @@ namespace ts {
                 fy -= sy;
                 //sy = std::min(sy, src_height - 3);
                 //sy = std::max(1, sy);
-                if (sy < 1) {
-                    fy = 0;
-                    sy = 1;
-                }
+                // images of less than 4 lines have no inner part to stay in
+                if (src_height >= 4) {
+                    if (sy < 1) {
+                        fy = 0;
+                        sy = 1;
+                    }
 
-                if (sy >= src_height - 3) {
-                    fy = 0, sy = src_height - 3;
+                    if (sy >= src_height - 3) {
+                        fy = 0, sy = src_height - 3;
+                    }
                 }
 
+                int ys[4];
+                for (int k = 0; k < 4; ++k) ys[k] = std::max(0, std::min(sy - 1 + k, src_height - 1));
+
                 const double A = -0.75f;
 
                 double coeffsY[4];
@@ -106,13 +113,18 @@ namespace ts {
                     int sx = int(floor(fx));
                     fx -= sx;
 
-                    if (sx < 1) {
-                        fx = 0, sx = 1;
-                    }
-                    if (sx >= src_width - 3) {
-                        fx = 0, sx = src_width - 3;
+                    if (src_width >= 4) {
+                        if (sx < 1) {
+                            fx = 0, sx = 1;
+                        }
+                        if (sx >= src_width - 3) {
+                            fx = 0, sx = src_width - 3;
+                        }
                     }
 
+                    int xs[4];
+                    for (int k = 0; k < 4; ++k) xs[k] = std::max(0, std::min(sx - 1 + k, src_width - 1));
+
                     double coeffsX[4];
                     coeffsX[0] = ((A * (fx + 1) - 5 * A) * (fx + 1) + 8 * A) * (fx + 1) - 4 * A;
                     coeffsX[1] = ((A + 2) * fx - (A + 3)) * fx * fx + 1;
@@ -121,25 +133,25 @@ namespace ts {
 
                     for (int k = 0; k < channels; ++k) {
                         dst_im[j * dstrows + i * channels + k] = (T) ((
-                                src_im[(sy - 1) * srcrows + (sx - 1) * channels + k] * coeffsX[0] * coeffsY[0] +
-                                src_im[(sy) * srcrows + (sx - 1) * channels + k] * coeffsX[0] * coeffsY[1] +
-                                src_im[(sy + 1) * srcrows + (sx - 1) * channels + k] * coeffsX[0] * coeffsY[2] +
-                                src_im[(sy + 2) * srcrows + (sx - 1) * channels + k] * coeffsX[0] * coeffsY[3] +
-
-                                src_im[(sy - 1) * srcrows + (sx) * channels + k] * coeffsX[1] * coeffsY[0] +
-                                src_im[(sy) * srcrows + (sx) * channels + k] * coeffsX[1] * coeffsY[1] +
-                                src_im[(sy + 1) * srcrows + (sx) * channels + k] * coeffsX[1] * coeffsY[2] +
-                                src_im[(sy + 2) * srcrows + (sx) * channels + k] * coeffsX[1] * coeffsY[3] +
-
-                                src_im[(sy - 1) * srcrows + (sx + 1) * channels + k] * coeffsX[2] * coeffsY[0] +
-                                src_im[(sy) * srcrows + (sx + 1) * channels + k] * coeffsX[2] * coeffsY[1] +
-                                src_im[(sy + 1) * srcrows + (sx + 1) * channels + k] * coeffsX[2] * coeffsY[2] +
-                                src_im[(sy + 2) * srcrows + (sx + 1) * channels + k] * coeffsX[2] * coeffsY[3] +
-
-                                src_im[(sy - 1) * srcrows + (sx + 2) * channels + k] * coeffsX[3] * coeffsY[0] +
-                                src_im[(sy) * srcrows + (sx + 2) * channels + k] * coeffsX[3] * coeffsY[1] +
-                                src_im[(sy + 1) * srcrows + (sx + 2) * channels + k] * coeffsX[3] * coeffsY[2] +
-                                src_im[(sy + 2) * srcrows + (sx + 2) * channels + k] * coeffsX[3] * coeffsY[3]));
+                                src_im[ys[0] * srcrows + xs[0] * channels + k] * coeffsX[0] * coeffsY[0] +
+                                src_im[ys[1] * srcrows + xs[0] * channels + k] * coeffsX[0] * coeffsY[1] +
+                                src_im[ys[2] * srcrows + xs[0] * channels + k] * coeffsX[0] * coeffsY[2] +
+                                src_im[ys[3] * srcrows + xs[0] * channels + k] * coeffsX[0] * coeffsY[3] +
+
+                                src_im[ys[0] * srcrows + xs[1] * channels + k] * coeffsX[1] * coeffsY[0] +
+                                src_im[ys[1] * srcrows + xs[1] * channels + k] * coeffsX[1] * coeffsY[1] +
+                                src_im[ys[2] * srcrows + xs[1] * channels + k] * coeffsX[1] * coeffsY[2] +
+                                src_im[ys[3] * srcrows + xs[1] * channels + k] * coeffsX[1] * coeffsY[3] +
+
+                                src_im[ys[0] * srcrows + xs[2] * channels + k] * coeffsX[2] * coeffsY[0] +
+                                src_im[ys[1] * srcrows + xs[2] * channels + k] * coeffsX[2] * coeffsY[1] +
+                                src_im[ys[2] * srcrows + xs[2] * channels + k] * coeffsX[2] * coeffsY[2] +
+                                src_im[ys[3] * srcrows + xs[2] * channels + k] * coeffsX[2] * coeffsY[3] +
+
+                                src_im[ys[0] * srcrows + xs[3] * channels + k] * coeffsX[3] * coeffsY[0] +
+                                src_im[ys[1] * srcrows + xs[3] * channels + k] * coeffsX[3] * coeffsY[1] +
+                                src_im[ys[2] * srcrows + xs[3] * channels + k] * coeffsX[3] * coeffsY[2] +
+                                src_im[ys[3] * srcrows + xs[3] * channels + k] * coeffsX[3] * coeffsY[3]));
 
                     }//end k
                 }
-- 
2.43.0


From da46060573c6ec89f370d1193e9b6b3ef7bca22c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:58 +0000
Subject: [PATCH 73/86] fix: scale_resize2d of empty images is refused and
 announces the size it gives

---
 src/backend/zoo/nhwc_scale_resize2d.cpp | 1 +
 src/runtime/inferer/factory.cpp         | 5 ++++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/backend/zoo/nhwc_scale_resize2d.cpp b/src/backend/zoo/nhwc_scale_resize2d.cpp
index ea9e735..951f29b 100644
--- a/src/backend/zoo/nhwc_scale_resize2d.cpp
+++ b/src/backend/zoo/nhwc_scale_resize2d.cpp
@@ -55,6 +55,7 @@ namespace ts {
             if (size.size() == 2) {
                 return Size2D(size[1], size[0]);
             } else {
+                TS_AUTO_CHECK(x.height != 0 && x.width != 0);   // an empty image has no ratio
                 if (x.height > x.width) {
                     return Size2D(size[0] * x.height / x.width, size[0]);
                 } else {
diff --git a/src/runtime/inferer/factory.cpp b/src/runtime/inferer/factory.cpp
index 4a12b18..f17e6bf 100644
--- a/src/runtime/inferer/factory.cpp
+++ b/src/runtime/inferer/factory.cpp
@@ -805,7 +805,10 @@ namespace ts {
                 auto H = y_shape[1];
                 auto W = y_shape[2];
 
-                if (H > W) {
+                if (H <= 0 || W <= 0) {     // not known, no ratio
+                    y_shape[1] = -1;
+                    y_shape[2] = -1;
+                } else if (H > W) {
                     y_shape[1] = S * H / W;
                     y_shape[2] = S;
                 } else {
-- 
2.43.0


From 0838d2622664d67426fcfd1aae4b35f9ae961717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:58 +0000
Subject: [PATCH 74/86] fix: cubic resize saturates integer types

---
 src/kernels/cpu/resize2d.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/kernels/cpu/resize2d.cpp b/src/kernels/cpu/resize2d.cpp
index b45da4f..42905df 100644
--- a/src/kernels/cpu/resize2d.cpp
+++ b/src/kernels/cpu/resize2d.cpp
@@ -2,6 +2,7 @@
 #include <core/tensor_builder.h>
 #include <memory>
 #include <algorithm>
+#include <limits>
 #include <global/operator_factory.h>
 #include <backend/name.h>
 #include <core/device.h>
@@ -67,6 +68,14 @@ namespace ts {
         }
 
 
+        // the cubic overshoots, what is not in the range of T must not be cast to it
+        template<typename TO, typename FROM>
+        static inline TO clamp(FROM from) {
+            constexpr auto MAX = FROM(std::numeric_limits<TO>::max());
+            constexpr auto MIN = FROM(std::numeric_limits<TO>::lowest());
+            return TO(std::max(MIN, std::min(MAX, from)));
+        }
+
         template<typename T>
         static inline void Resize2d_ResizeImageCubic(const T *src_im, int src_width, int src_height, int channels,
                                                      T *dst_im, int dst_width, int dst_height) {
@@ -132,7 +141,7 @@ namespace ts {
                     coeffsX[3] = 1.f - coeffsX[0] - coeffsX[1] - coeffsX[2];
 
                     for (int k = 0; k < channels; ++k) {
-                        dst_im[j * dstrows + i * channels + k] = (T) ((
+                        dst_im[j * dstrows + i * channels + k] = clamp<T, double>((
                                 src_im[ys[0] * srcrows + xs[0] * channels + k] * coeffsX[0] * coeffsY[0] +
                                 src_im[ys[1] * srcrows + xs[0] * channels + k] * coeffsX[0] * coeffsY[1] +
                                 src_im[ys[2] * srcrows + xs[0] * channels + k] * coeffsX[0] * coeffsY[2] +
-- 
2.43.0


From e28c340d708f12334beb7d229435f2068ce45d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:58 +0000
Subject: [PATCH 75/86] fix: resize2d and affine_sample2d of empty images are
 refused

---
 src/backend/base/base_affine_sample2d.cpp | 2 ++
 src/backend/base/base_resize2d.cpp        | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/backend/base/base_affine_sample2d.cpp b/src/backend/base/base_affine_sample2d.cpp
index 83b8d91..a95e908 100644
--- a/src/backend/base/base_affine_sample2d.cpp
+++ b/src/backend/base/base_affine_sample2d.cpp
@@ -91,6 +91,8 @@ namespace ts {
                dim = int(input_shape.size()) + dim;
             }
             TS_AUTO_CHECK((dim >= 0) && (dim + 1  < input_shape.size()));
+            // an empty image has no element near by
+            TS_AUTO_CHECK(m_outer_mode == AffineOuterMode::VALUE || (input_shape[dim] > 0 && input_shape[dim + 1] > 0));
 
 
 
diff --git a/src/backend/base/base_resize2d.cpp b/src/backend/base/base_resize2d.cpp
index 22209fc..72eb587 100644
--- a/src/backend/base/base_resize2d.cpp
+++ b/src/backend/base/base_resize2d.cpp
@@ -74,7 +74,7 @@ namespace ts {
             auto size_data = size.data<int32_t>();
 
             auto resized_height_dim = find_resized_height_dim(shape_data, size_data, n);
-            if (resized_height_dim < 0) {
+            if (resized_height_dim < 0 || shape_data[resized_height_dim] <= 0 || shape_data[resized_height_dim + 1] <= 0) {
                 TS_LOG_ERROR << "Can not resize " << to_string(x.sizes())
                              << " to " << to_string(Shape(size_data, size_data + n)) << eject;
             }
-- 
2.43.0


From 1b492fd428394bb5ae42d830611f436b3227b672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:58 +0000
Subject: [PATCH 76/86] fix: no exception leaves the C interface

---
 src/api/declaration.h | 13 ++++++++++---
 src/api/errno.h       |  7 +++++++
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/api/declaration.h b/src/api/declaration.h
index 4ce97f6..71fde20 100644
--- a/src/api/declaration.h
+++ b/src/api/declaration.h
@@ -5,6 +5,7 @@
 #ifndef TENNIS_API_DECLARATION_H
 #define TENNIS_API_DECLARATION_H
 
+#include <exception>
 #include <memory>
 #include "errno.h"
 #include "utils/except.h"
@@ -35,13 +36,19 @@ try {
 
 #define RETURN_OR_CATCH(ret, cat) \
 return ret; \
-} catch (const Exception &e) { \
-ts::api::SetLEM(e.what()); \
+} catch (const std::exception &e) { \
+ts::api::SetFailure(e.what()); \
+return cat; \
+} catch (...) { \
+ts::api::SetFailure(nullptr); \
 return cat; \
 }
 
 #define TRY_TAIL \
-} catch (const Exception &) { \
+} catch (const std::exception &e) { \
+ts::api::SetFailure(e.what()); \
+} catch (...) { \
+ts::api::SetFailure(nullptr); \
 }
 
 #endif //TENNIS_API_DECLARATION_H
diff --git a/src/api/errno.h b/src/api/errno.h
index f6ce7be..6668071 100644
--- a/src/api/errno.h
+++ b/src/api/errno.h
@@ -22,6 +22,13 @@ namespace ts {
         inline void SetLEM(const std::string &message = "") {
             _thread_local_last_error_message = message;
         }
+
+        /**
+         * Record failure, the recorded message is never empty
+         */
+        inline void SetFailure(const char *message) {
+            _thread_local_last_error_message = message && *message ? message : "Unknown exception.";
+        }
     }
 }
 
-- 
2.43.0


From a6bab070738a60e6a898da20bf31eb868836f3f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:58 +0000
Subject: [PATCH 77/86] fix: a call of the C interface that succeeds leaves no
 message

---
 src/api/declaration.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/api/declaration.h b/src/api/declaration.h
index 71fde20..76bf0af 100644
--- a/src/api/declaration.h
+++ b/src/api/declaration.h
@@ -35,7 +35,9 @@ ts::api::ClearLEM(); \
 try {
 
 #define RETURN_OR_CATCH(ret, cat) \
-return ret; \
+auto _api_result = ret; \
+ts::api::ClearLEM(); \
+return _api_result; \
 } catch (const std::exception &e) { \
 ts::api::SetFailure(e.what()); \
 return cat; \
@@ -45,6 +47,7 @@ return cat; \
 }
 
 #define TRY_TAIL \
+ts::api::ClearLEM(); \
 } catch (const std::exception &e) { \
 ts::api::SetFailure(e.what()); \
 } catch (...) { \
-- 
2.43.0


From 3cb604aaf02aa161480a925f2f791c130159b3ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:58 +0000
Subject: [PATCH 78/86] fix: null strings and handles are reported by the C
 interface

---
 src/api/common.cpp    | 2 +-
 src/api/operator.cpp  | 6 ++++++
 src/api/plugin.cpp    | 4 +++-
 src/api/tensor.cpp    | 1 +
 src/api/workbench.cpp | 3 +++
 5 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/api/common.cpp b/src/api/common.cpp
index 69ca17c..dd6471e 100644
--- a/src/api/common.cpp
+++ b/src/api/common.cpp
@@ -13,5 +13,5 @@ const char *ts_last_error_message() {
 }
 
 void ts_set_error_message(const char *message) {
-    SetLEM(message);
+    SetLEM(message ? message : "");
 }
diff --git a/src/api/operator.cpp b/src/api/operator.cpp
index 8b501e8..b07c3a4 100644
--- a/src/api/operator.cpp
+++ b/src/api/operator.cpp
@@ -147,6 +147,8 @@ void ts_Operator_Register(const char *device, const char *op,
     if (f_new == nullptr || f_free == nullptr || f_init == nullptr || f_run == nullptr) {
         TS_LOG_ERROR << "f_new, f_free, f_init and f_run can't be nullptr" << eject;
     }
+    if (!device) throw Exception("NullPointerException: @param: 1");
+    if (!op) throw Exception("NullPointerException: @param: 2");
     std::string cpp_device(device);
     std::string cpp_op(op);
     auto creator = [=]() -> Operator::shared {
@@ -160,6 +162,8 @@ void ts_Operator_Register(const char *device, const char *op,
 
 ts_Tensor *ts_OperatorParams_get(const ts_OperatorParams *dict, const char *param) {
     TRY_HEAD
+    if (!dict) throw Exception("NullPointerException: @param: 1");
+    if (!param) throw Exception("NullPointerException: @param: 2");
     std::string cpp_param(param);
     if (dict->op->has(cpp_param)) {
         std::unique_ptr<ts_Tensor> value(new ts_Tensor(dict->op->get(cpp_param)));
@@ -190,6 +194,8 @@ void ts_Operator_RegisterEx(const char *device, const char *op, ts_new_Operator
         if (f_new == nullptr || f_free == nullptr || f_init == nullptr || f_run == nullptr) {
             TS_LOG_ERROR << "f_new, f_free, f_init and f_run can't be nullptr" << eject;
         }
+        if (!device) throw Exception("NullPointerException: @param: 1");
+        if (!op) throw Exception("NullPointerException: @param: 2");
         std::string cpp_device(device);
         std::string cpp_op(op);
         auto creator = [=]() -> Operator::shared {
diff --git a/src/api/plugin.cpp b/src/api/plugin.cpp
index a87925c..6d39096 100644
--- a/src/api/plugin.cpp
+++ b/src/api/plugin.cpp
@@ -36,19 +36,20 @@ ts_op_creator_map* ts_plugin_get_creator_map(){
 
 void ts_plugin_flush_creator(ts_op_creator_map* creator_map){
     TRY_HEAD
+    if (!creator_map) throw Exception("NullPointerException: @param: 1");
     OperatorCreator::flush(creator_map->map);
     TRY_TAIL
 }
 
 void ts_plugin_free_creator_map(ts_op_creator_map* creator_map){
     TRY_HEAD
-    creator_map->map.clear();
     delete(creator_map);
     TRY_TAIL
 }
 
 ts_device_context* ts_plugin_initial_device_context(const ts_Device *device){
     TRY_HEAD
+    if (!device) throw Exception("NullPointerException: @param: 1");
     std::shared_ptr<DeviceContext> device_context = std::make_shared<DeviceContext>();
     device_context->initialize(ComputingDevice(device->type, device->id));
     DeviceContext::Switch(device_context.get());
@@ -64,6 +65,7 @@ void ts_plugin_free_device_context(ts_device_context* device){
 
 void ts_plugin_bind_device_context(ts_device_context* device){
     TRY_HEAD
+    if (!device) throw Exception("NullPointerException: @param: 1");
     DeviceContext::Switch(device->pointer.get());
     TRY_TAIL
 }
diff --git a/src/api/tensor.cpp b/src/api/tensor.cpp
index 04fe886..f9206b4 100644
--- a/src/api/tensor.cpp
+++ b/src/api/tensor.cpp
@@ -113,6 +113,7 @@ ts_Tensor *ts_Tensor_cast(ts_Tensor *tensor, ts_DTYPE dtype) {
 ts_Tensor *ts_Tensor_reshape(ts_Tensor *tensor, const int32_t *shape, int32_t shape_len) {
     TRY_HEAD
         if (!tensor) throw Exception("NullPointerException: @param: 1");
+        if (shape == nullptr) shape_len = 0;
         std::unique_ptr<ts_Tensor> dolly(new ts_Tensor((*tensor)->reshape(Shape(shape, shape + shape_len))));
     RETURN_OR_CATCH(dolly.release(), nullptr)
 }
diff --git a/src/api/workbench.cpp b/src/api/workbench.cpp
index 0cd6a89..341e391 100644
--- a/src/api/workbench.cpp
+++ b/src/api/workbench.cpp
@@ -188,6 +188,9 @@ ts_bool ts_Workbench_run_hook(ts_Workbench *workbench, const char **node_names,
     TRY_HEAD
         if (!workbench) throw Exception("NullPointerException: @param: 1");
         if (!node_names) throw Exception("NullPointerException: @param: 2");
+        for (int i = 0; i < len; ++i) {
+            if (!node_names[i]) throw Exception("NullPointerException: @param: node_names[" + std::to_string(i) + "]");
+        }
         (*workbench)->run_hook(std::vector<std::string>(node_names, node_names + len));
     RETURN_OR_CATCH(ts_true, ts_false)
 }
-- 
2.43.0


From 27a2c28be1062bbf4dd4d2b6a5106b4dc267c4aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:58 +0000
Subject: [PATCH 79/86] fix: shapes told by a plug-in are read within their
 bounds

---
 src/api/operator.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/api/operator.cpp b/src/api/operator.cpp
index b07c3a4..759d2e9 100644
--- a/src/api/operator.cpp
+++ b/src/api/operator.cpp
@@ -103,14 +103,17 @@ public:
             class _ : public std::exception {};
             try {
                 if (size <= 0) throw _();
-                packed_proto.resize(size);
+                auto fields = data[0];
+                // each field takes at least two elements
+                if (fields <= 0 || fields > (size - 1) / 2) throw _();
+                packed_proto.resize(size_t(fields));
                 int anchor = 1;
-                for (int i = 0; i < size; ++i) {
+                for (int i = 0; i < fields; ++i) {
                     if (size - anchor < 2) throw _();
                     auto &this_proto = packed_proto[i];
                     auto this_dtype = DTYPE(data[anchor++]);
                     auto this_dims = data[anchor++];
-                    if (size - anchor < this_dims) throw _();
+                    if (this_dims < 0 || size - anchor < this_dims) throw _();
                     Shape this_shape(this_dims);
                     for (int j = 0; j < this_dims; ++j) {
                         this_shape[j] = data[anchor++];
-- 
2.43.0


From de3ed53b7cda763e7d2cc1e8a9b6fbf5a8f80abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:58 +0000
Subject: [PATCH 80/86] fix: a plug-in failing to release does not end the
 program

---
 src/api/operator.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/api/operator.cpp b/src/api/operator.cpp
index 759d2e9..d0e8947 100644
--- a/src/api/operator.cpp
+++ b/src/api/operator.cpp
@@ -37,7 +37,16 @@ public:
     }
 
     ~APIPluginOperator() final {
-        if (obj) f_free(obj);
+        if (obj == nullptr) return;
+        // an exception must not leave the destructor
+        try {
+            f_free(obj);
+        } catch (const std::exception &e) {
+            TS_LOG_STATUS << "Call ts_free_Operator failed on " << device << " for " << op << "."
+                          << "\nWith: " << e.what();
+        } catch (...) {
+            TS_LOG_STATUS << "Call ts_free_Operator failed on " << device << " for " << op << ".";
+        }
     }
 
     void init() override {
-- 
2.43.0


From 63de448593a381188f321ddd01e114dbba1bd6d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:58 +0000
Subject: [PATCH 81/86] fix: ts_Tensor_field reports negative fields

---
 src/api/tensor.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/api/tensor.cpp b/src/api/tensor.cpp
index f9206b4..d4d80a2 100644
--- a/src/api/tensor.cpp
+++ b/src/api/tensor.cpp
@@ -145,6 +145,7 @@ ts_new_Tensor_in_flow(ts_InFlow in_flow, const int32_t *shape, int32_t shape_len
 ts_Tensor *ts_Tensor_field(ts_Tensor *tensor, int32_t index) {
     TRY_HEAD
         if (!tensor) throw Exception("NullPointerException: @param: 1");
+        if (index < 0) throw Exception("Tensor field index must not be negative, got " + std::to_string(index));
         std::unique_ptr<ts_Tensor> dolly(new ts_Tensor((*tensor)->field(index)));
     RETURN_OR_CATCH(dolly.release(), nullptr)
 }
-- 
2.43.0


From 85e0e021c42771523d3f6613654989bb062f0106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:58 +0000
Subject: [PATCH 82/86] fix: a plug-in that cannot be made is reported

---
 src/global/operator_factory.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/global/operator_factory.cpp b/src/global/operator_factory.cpp
index b31ae0b..b4153b4 100644
--- a/src/global/operator_factory.cpp
+++ b/src/global/operator_factory.cpp
@@ -88,7 +88,11 @@ namespace ts {
                                                         bool strict) TS_NOEXCEPT {
         auto creator = TalentQuery(device_type, operator_name, strict);
         if (!creator) return nullptr;
-        return creator();
+        try {
+            return creator();
+        } catch (...) {
+            return nullptr;
+        }
     }
 
     OperatorCreator::function
@@ -98,7 +102,9 @@ namespace ts {
 
     Operator::shared
     OperatorCreator::Create(const DeviceType &device_type, const std::string &operator_name, bool strict)  {
-        auto op = CreateNoException(device_type, operator_name, strict);
+        auto creator = TalentQuery(device_type, operator_name, strict);
+        if (!creator) throw OperatorNotFoundException(device_type, operator_name);
+        auto op = creator();
         if (op == nullptr) throw OperatorNotFoundException(device_type, operator_name);
         return op;
     }
-- 
2.43.0


From 2089c9551607305ac362e91c57a1cd4376bd4171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:57 +0000
Subject: [PATCH 83/86] fix: a hooked run without a program is an error

---
 src/runtime/workbench.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/runtime/workbench.cpp b/src/runtime/workbench.cpp
index cc19233..49d83ea 100644
--- a/src/runtime/workbench.cpp
+++ b/src/runtime/workbench.cpp
@@ -586,6 +586,10 @@ namespace ts {
     }
 
     void Workbench::run_hook(const std::vector<std::string> &node_names) {
+        if (m_desktop == nullptr) {
+            TS_LOG_ERROR << "Can not run workbench with no program setup" << eject;
+        }
+
         this->m_hooked_tensor.clear();
 
         auto controller = std::make_shared<DynamicMemoryController>(MemoryDevice(CPU));
-- 
2.43.0


From f8d3c81dbd57944100f153df33bbc37cee69a87a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:57 +0000
Subject: [PATCH 84/86] fix: plug-ins can be made in the context set up by
 ts_Workbench_setup_context

---
 src/api/declare_operator.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/api/declare_operator.h b/src/api/declare_operator.h
index 52b482d..aefe35d 100644
--- a/src/api/declare_operator.h
+++ b/src/api/declare_operator.h
@@ -17,6 +17,7 @@
 
 #include "core/device_context.h"
 #include "runtime/runtime.h"
+#include "runtime/workbench.h"
 
 struct ts_OperatorParams {
 public:
@@ -56,8 +57,12 @@ public:
 struct ts_OperatorContext {
 public:
     ts_OperatorContext() {
-        device = &ts::ctx::of<ts::DeviceContext>::ref();
-        runtime = &ts::ctx::of<ts::RuntimeContext>::ref();
+        device = ts::ctx::of<ts::DeviceContext>::get();
+        runtime = ts::ctx::of<ts::RuntimeContext>::get();
+        // outside of a running workbench, use the one set up in this thread
+        auto bench = ts::ctx::of<ts::Workbench>::get();
+        if (device == nullptr) device = bench ? &bench->device() : &ts::ctx::of<ts::DeviceContext>::ref();
+        if (runtime == nullptr) runtime = bench ? &bench->runtime() : &ts::ctx::of<ts::RuntimeContext>::ref();
     }
 
     ts::DeviceContext *device;
-- 
2.43.0


From 9c017b6dc1fd6b72a72562a158fb997c073269f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:57 +0000
Subject: [PATCH 85/86] fix: formats that cannot be read are refused by
 ts_Module_LoadFromStream

---
 src/module/module.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/module/module.cpp b/src/module/module.cpp
index a58f352..bb645b1 100644
--- a/src/module/module.cpp
+++ b/src/module/module.cpp
@@ -343,6 +343,7 @@ namespace ts {
 
     Module::shared Module::LoadV2(StreamReaderV2 &stream, const void *buffer, int32_t buffer_size,
                                   Module::SerializationFormat format) {
+        TS_AUTO_CHECK(format == BINARY);
         auto module_loaders = ModuleLoader::AllKeys();
         for (auto &module_loader : module_loaders) {
             auto loader = ModuleLoader::Query(module_loader);
-- 
2.43.0


From 23c356d13f3aba31b5c815c7d3692e9c83fd4e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:57 +0000
Subject: [PATCH 86/86] fix: copying tensor handles in several threads counts
 them right

---
 include/core/threadsafe/smart.h | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/include/core/threadsafe/smart.h b/include/core/threadsafe/smart.h
index 61097d1..d486c31 100644
--- a/include/core/threadsafe/smart.h
+++ b/include/core/threadsafe/smart.h
@@ -50,15 +50,13 @@ namespace ts {
         }
 
         Counter &operator==(self &&other) TS_NOEXCEPT {
-#define MOVE_MEMBER(member) this->member = std::move(other.member)
-            MOVE_MEMBER(object);
-            MOVE_MEMBER(use_count);
-#undef MOVE_MEMBER
+            this->object = std::move(other.object);
+            this->use_count = other.use_count.load();
             return *this;
         }
 
         Object *object = nullptr;
-        int use_count = 0;
+        std::atomic<int> use_count{0};
         Deleter deleter = default_deleter<T>();
     };
 
@@ -113,8 +111,7 @@ namespace ts {
 
         void dispose() {
             if (m_counted && m_mode == SMART) {
-                --m_counted->use_count;
-                if (m_counted->use_count <= 0) {
+                if (--m_counted->use_count <= 0) {
                     delete m_counted;
                     m_counted = nullptr;
                 }
-- 
2.43.0

