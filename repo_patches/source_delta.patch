From ba4ea8541b1de0d7dbfde7a2cfe14b37260e0d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:15 +0000
Subject: [PATCH 01/24] fix: reject NaN genes when setting a chromosome from a
 range of doubles

---
 include/dcgp/expression.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/dcgp/expression.hpp b/include/dcgp/expression.hpp
index f684e92..ddbb61e 100644
--- a/include/dcgp/expression.hpp
+++ b/include/dcgp/expression.hpp
@@ -1107,7 +1107,8 @@ private:
         auto lb_iter = m_lb.begin();
         auto ub_iter = m_ub.begin();
         while (begin != end) {
-            if ((*begin > *ub_iter) || (*begin < *lb_iter)) {
+            // (written so that also a NaN is rejected)
+            if (!(*begin <= *ub_iter && *begin >= *lb_iter)) {
                 throw std::invalid_argument("Inconsistent chromosome: out of bounds. A component of the chromosome is "
                                             + std::to_string(*begin) + " while the bounds are: ["
                                             + std::to_string(*lb_iter) + " " + ", " + std::to_string(*ub_iter) + "]");
-- 
2.43.0


From 412b719192ab8cf19b9da2641bce2d2868f1bcdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:15 +0000
Subject: [PATCH 02/24] fix: mutating a list of genes checks all indices before
 changing the chromosome

---
 include/dcgp/expression.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/dcgp/expression.hpp b/include/dcgp/expression.hpp
index ddbb61e..b15cba9 100644
--- a/include/dcgp/expression.hpp
+++ b/include/dcgp/expression.hpp
@@ -678,10 +678,13 @@ public:
     void mutate(std::vector<unsigned> idxs)
     {
         bool flag = false;
-        for (auto i = 0u; i < idxs.size(); ++i) {
-            if (idxs[i] >= m_x.size()) {
+        // All indices are checked before any gene is mutated
+        for (auto idx : idxs) {
+            if (idx >= m_x.size()) {
                 throw std::invalid_argument("idx of gene to be mutated is out of bounds");
             }
+        }
+        for (auto i = 0u; i < idxs.size(); ++i) {
             // If only one value is allowed for the gene, (lb==ub),
             // then we will not do anything as mutation does not apply
             if (m_lb[idxs[i]] < m_ub[idxs[i]]) {
-- 
2.43.0


From 788f34e04fff73a54fdc7ab98f46ee701a35009d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:15 +0000
Subject: [PATCH 03/24] fix: mutate_ogene of zero genes does not mutate the
 only output gene

---
 include/dcgp/expression.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dcgp/expression.hpp b/include/dcgp/expression.hpp
index b15cba9..f25626a 100644
--- a/include/dcgp/expression.hpp
+++ b/include/dcgp/expression.hpp
@@ -833,7 +833,7 @@ public:
                 mutate(idx);
             }
 
-        } else {
+        } else if (N > 0u) {
             idx = static_cast<unsigned>(m_active_genes.size() - 1u);
             idx = m_active_genes[idx];
             mutate(idx);
-- 
2.43.0


From d26365ee405854c1a9e1ffcd3a9c105cbbcc1f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:14 +0000
Subject: [PATCH 04/24] fix: protected division of a single argument read past
 the end of the arguments

---
 include/dcgp/wrapped_functions.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dcgp/wrapped_functions.hpp b/include/dcgp/wrapped_functions.hpp
index 0817174..7e24027 100644
--- a/include/dcgp/wrapped_functions.hpp
+++ b/include/dcgp/wrapped_functions.hpp
@@ -154,9 +154,9 @@ struct my_pdiv_func {
     T operator()(const std::vector<T> &in) const
     {
         T retval(in[0]);
-        T tmpval(in[1]);
+        T tmpval(1.);
 
-        for (auto i = 2u; i < in.size(); ++i) {
+        for (auto i = 1u; i < in.size(); ++i) {
             tmpval *= in[i];
         }
 
-- 
2.43.0


From 546b553dc0a9c56767e1c526cf3981febb59393e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:14 +0000
Subject: [PATCH 05/24] fix: print the argument of the unary gaussian in
 parentheses

The power binds more tightly than a leading minus, so that the formula
printed for an argument such as -(x) was not the function evaluated.
---
 include/dcgp/wrapped_functions.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dcgp/wrapped_functions.hpp b/include/dcgp/wrapped_functions.hpp
index 7e24027..e73458c 100644
--- a/include/dcgp/wrapped_functions.hpp
+++ b/include/dcgp/wrapped_functions.hpp
@@ -775,7 +775,7 @@ struct print_my_gaussian_func {
     /// Call operator
     std::string operator()(const std::vector<std::string> &in) const
     {
-        return "exp(-" + in[0] + "**2)";
+        return "exp(-(" + in[0] + ")**2)";
     }
     DCGP_S11N_EMPTY_SERIALIZE_MEMFN()
 };
-- 
2.43.0


From ac95bc14498688b167fe6a1798ef758b044a0641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:36 +0000
Subject: [PATCH 06/24] fix: reject indices of weights and biases that do not
 exist in expression_ann

---
 include/dcgp/expression_ann.hpp | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/include/dcgp/expression_ann.hpp b/include/dcgp/expression_ann.hpp
index 28cf15b..8bfa1bb 100644
--- a/include/dcgp/expression_ann.hpp
+++ b/include/dcgp/expression_ann.hpp
@@ -657,10 +657,13 @@ public:
      * @param[idx] index of the weight to be changed.
      * @param[w] value of the weight to be changed.
      *
-     * @throws std::invalid_argument if the node_id or input_id are not valid
+     * @throws std::invalid_argument if the weight index is not valid
      */
     void set_weight(std::vector<double>::size_type idx, const double &w)
     {
+        if (idx >= m_weights.size()) {
+            throw std::invalid_argument("Requested weight does not exist");
+        }
         m_weights[idx] = w;
     }
 
@@ -712,9 +715,13 @@ public:
      *
      * @param[in] idx index of the weight
      *
+     * @throws std::invalid_argument if the weight index is not valid
      */
     double get_weight(std::vector<double>::size_type idx) const
     {
+        if (idx >= m_weights.size()) {
+            throw std::invalid_argument("Requested weight does not exist");
+        }
         return m_weights[idx];
     }
 
@@ -759,9 +766,13 @@ public:
      * @param[idx] index of the bias to be changed.
      * @param[w] value of the new bias.
      *
+     * @throws std::invalid_argument if the bias index is not valid
      */
     void set_bias(typename std::vector<double>::size_type idx, const double &w)
     {
+        if (idx >= m_biases.size()) {
+            throw std::invalid_argument("Requested bias does not exist");
+        }
         m_biases[idx] = w;
     }
 
@@ -787,9 +798,13 @@ public:
      *
      * @param[in] idx index of the bias
      *
+     * @throws std::invalid_argument if the bias index is not valid
      */
     double get_bias(typename std::vector<double>::size_type idx) const
     {
+        if (idx >= m_biases.size()) {
+            throw std::invalid_argument("Requested bias does not exist");
+        }
         return m_biases[idx];
     }
 
-- 
2.43.0


From 67ec02d89f43447d7bbd9afe1ecd1276a37e7e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:04 +0000
Subject: [PATCH 07/24] fix: set_output_f rejects unknown kernels and outputs
 connected to inputs before changing anything

---
 include/dcgp/expression_ann.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/dcgp/expression_ann.hpp b/include/dcgp/expression_ann.hpp
index 8bfa1bb..22c1e70 100644
--- a/include/dcgp/expression_ann.hpp
+++ b/include/dcgp/expression_ann.hpp
@@ -530,7 +530,8 @@ public:
      */
     void set_output_f(const std::string &name)
     {
-        typename std::vector<kernel_type>::iterator it;
+        // An unknown name is not a kernel of this expression.
+        auto it = m_kernel_map.end();
         if (name == "sig") {
             it = std::find(m_kernel_map.begin(), m_kernel_map.end(), kernel_type::SIG);
         } else if (name == "tanh") {
@@ -561,6 +562,13 @@ public:
             throw std::invalid_argument("The nonlinearity " + name + " is not a Kernel for this dCGP expression");
         } else {
             unsigned f_id = static_cast<unsigned>(it - m_kernel_map.begin());
+            // An output connected to an input has no nonlinearity: nothing is changed in that case.
+            for (decltype(this->get_m()) i = 0u; i < this->get_m(); ++i) {
+                if (this->get()[this->get().size() - 1 - i] < this->get_n()) {
+                    throw std::invalid_argument("The output nonlinearities cannot be set as an output is connected "
+                                                "directly to an input");
+                }
+            }
             for (decltype(this->get_m()) i = 0u; i < this->get_m(); ++i) {
                 this->set_f_gene(this->get()[this->get().size() - 1 - i], f_id);
             }
-- 
2.43.0


From 5122318df2093caf86aa8082029ce548728c9278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:04 +0000
Subject: [PATCH 08/24] fix: derivative of the ISRU activation at zero input is
 one, not NaN

---
 include/dcgp/expression_ann.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dcgp/expression_ann.hpp b/include/dcgp/expression_ann.hpp
index 22c1e70..4bc0725 100644
--- a/include/dcgp/expression_ann.hpp
+++ b/include/dcgp/expression_ann.hpp
@@ -984,7 +984,7 @@ private:
                         break;
                     case kernel_type::ISRU: {
                         auto cumin = std::accumulate(function_in.begin(), function_in.end(), 0.);
-                        d_node[node_id] = node[node_id] * node[node_id] * node[node_id] / cumin / cumin / cumin;
+                        d_node[node_id] = 1. / ((1. + cumin * cumin) * std::sqrt(1. + cumin * cumin));
                         break;
                     }
                     case kernel_type::SIN_NU: {
-- 
2.43.0


From da3e53c1bbd9edd4f11aa20cada32c90e88dd181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:04 +0000
Subject: [PATCH 09/24] fix: sgd rejects a zero batch size (it never ended) and
 does not step past the end of the data

---
 include/dcgp/expression_ann.hpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/include/dcgp/expression_ann.hpp b/include/dcgp/expression_ann.hpp
index 4bc0725..45aed67 100644
--- a/include/dcgp/expression_ann.hpp
+++ b/include/dcgp/expression_ann.hpp
@@ -457,8 +457,8 @@ public:
      * @return The average error across the batches. Note: this will not be equal to the error on the whole data set
      * as weights get updated after each batch. It is an indicator, though, and its free to compute.
      *
-     * @throws std::invalid_argument if the *data* and *label* size do not match or is zero, or if *lr* is not
-     * positive.
+     * @throws std::invalid_argument if the *data* and *label* size do not match or is zero, or if *lr* or
+     * *batch_size* is not positive.
      */
     double sgd(std::vector<std::vector<double>> &points, std::vector<std::vector<double>> &labels, double lr,
                unsigned batch_size, const std::string &loss_s, unsigned parallel = 0u, bool shuffle = true)
@@ -471,10 +471,13 @@ public:
         if (points.size() == 0) {
             throw std::invalid_argument("Data size cannot be zero");
         }
-        if (lr <= 0) {
+        if (!(lr > 0)) {
             throw std::invalid_argument("The learning rate must be a positive number, while: " + std::to_string(lr)
                                         + " was detected.");
         }
+        if (batch_size == 0u) {
+            throw std::invalid_argument("The batch size cannot be zero");
+        }
 
         // Decoding the loss from string to the enum type (loss_s -> loss_e)
         expression<double>::loss_type loss_e;
@@ -503,7 +506,7 @@ public:
         double retval = 0.;
         double counter = 0.;
         while (dfirst != dlast) {
-            if (dfirst + batch_size > dlast) {
+            if (static_cast<unsigned long>(dlast - dfirst) < batch_size) {
                 retval += update_weights(dfirst, dlast, lfirst, lr, loss_e, parallel);
                 dfirst = dlast;
                 counter++;
-- 
2.43.0


From cda647e33ec26b6d1630bfda4f8bc0edcdd59197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:13 +0000
Subject: [PATCH 10/24] fix: uball5d sums the squares, as documented, instead
 of multiplying them

---
 include/dcgp/gym.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dcgp/gym.hpp b/include/dcgp/gym.hpp
index 835ba55..ba1b983 100644
--- a/include/dcgp/gym.hpp
+++ b/include/dcgp/gym.hpp
@@ -90,8 +90,8 @@ inline double uball5d(const std::vector<double> &x)
 {
     return 10.
            / (5.
-              + std::pow((x[0] - 3.), 2) * std::pow((x[1] - 3.), 2) * std::pow((x[2] - 3.), 2)
-                    * std::pow((x[3] - 3.), 2) * std::pow((x[4] - 3.), 2));
+              + std::pow((x[0] - 3.), 2) + std::pow((x[1] - 3.), 2) + std::pow((x[2] - 3.), 2)
+              + std::pow((x[3] - 3.), 2) + std::pow((x[4] - 3.), 2));
 }
 
 inline double ratpol3d(const std::vector<double> &x)
-- 
2.43.0


From 2459d9957703347b94a12ce79e427af1e170da2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:13 +0000
Subject: [PATCH 11/24] fix: sinecosine is 6 sin(x1) cos(x2), as documented

---
 include/dcgp/gym.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dcgp/gym.hpp b/include/dcgp/gym.hpp
index ba1b983..c1cc1a5 100644
--- a/include/dcgp/gym.hpp
+++ b/include/dcgp/gym.hpp
@@ -101,7 +101,7 @@ inline double ratpol3d(const std::vector<double> &x)
 
 inline double sinecosine(const std::vector<double> &x)
 {
-    return 6. * std::cos(x[0] * std::sin(x[1]));
+    return 6. * std::sin(x[0]) * std::cos(x[1]);
 }
 
 inline double ripple(const std::vector<double> &x)
-- 
2.43.0


From a1e8409df43274085596a97d0425d0c3259da88c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:13 +0000
Subject: [PATCH 12/24] fix: documented functions and domain of P2, ratpol3d
 and salutowicz are those of the cited papers and of the code

---
 dcgpy/docstrings.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dcgpy/docstrings.cpp b/dcgpy/docstrings.cpp
index d6eb8ba..c0b1d54 100644
--- a/dcgpy/docstrings.cpp
+++ b/dcgpy/docstrings.cpp
@@ -533,7 +533,7 @@ European Conference on Genetic Programming. Springer, 2017.
 The functional form of such a problem is:
 
 .. math::
-   y = x^5 - \pi x^3 + \frac{\pi}{x}
+   y = x^5 - \pi x^3 + \frac{2\pi}{x}
 
 x is sampled in ten equally spaced points in [0.1,5].
 
@@ -736,7 +736,7 @@ The functional form of such a problem is:
 .. math::
    y = e^{-x} x^3 \cos x\sin x (\cos x \sin^2 x - 1)
 
-x is sampled in one hundred points uniformly sampled in [0.5,10].
+x is sampled in one hundred points uniformly sampled in [0.05,10].
 
 Returns:
     A tuple containing the points (``2D NumPy float array``) and labels (``2D NumPy float array``).
@@ -824,7 +824,7 @@ programming." IEEE Transactions on Evolutionary Computation 13.2 (2008): 333-349
 The functional form of such a problem is:
 
 .. math::
-   y = 30 \frac{(x_1 - 3)(x_3 - 1)}{x_2^2(x_1-10)}
+   y = 30 \frac{(x_1 - 1)(x_3 - 1)}{x_2^2(x_1-10)}
 
 :math:`x_1`, :math:`x_2`, :math:`x_3` are sampled in 300 randomly selected points in [0.05,2] x [1,2].
 
-- 
2.43.0


From 8868dca7ebf3419fc14d39cb2c8f3ba5903ff3ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:07 +0000
Subject: [PATCH 13/24] fix: generate_lanczos2 returns the Lanczos2 data (6
 digits), as documented, instead of those of Lanczos3

---
 include/dcgp/nist_data.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/dcgp/nist_data.hpp b/include/dcgp/nist_data.hpp
index ccf7344..02f5a4e 100644
--- a/include/dcgp/nist_data.hpp
+++ b/include/dcgp/nist_data.hpp
@@ -243,9 +243,10 @@ inline std::vector<std::vector<double>> lanczos2_points
        {6.00000E-01}, {6.50000E-01}, {7.00000E-01}, {7.50000E-01}, {8.00000E-01}, {8.50000E-01},
        {9.00000E-01}, {9.50000E-01}, {1.00000E+00}, {1.05000E+00}, {1.10000E+00}, {1.15000E+00}};
 inline std::vector<std::vector<double>> lanczos2_labels
-    = {{2.5134E+00}, {2.0443E+00}, {1.6684E+00}, {1.3664E+00}, {1.1232E+00}, {0.9269E+00}, {0.7679E+00}, {0.6389E+00},
-       {0.5338E+00}, {0.4479E+00}, {0.3776E+00}, {0.3197E+00}, {0.2720E+00}, {0.2325E+00}, {0.1997E+00}, {0.1723E+00},
-       {0.1493E+00}, {0.1301E+00}, {0.1138E+00}, {0.1000E+00}, {0.0883E+00}, {0.0783E+00}, {0.0698E+00}, {0.0624E+00}};
+    = {{2.51340E+00}, {2.04433E+00}, {1.66840E+00}, {1.36642E+00}, {1.12323E+00}, {9.26890E-01},
+       {7.67934E-01}, {6.38878E-01}, {5.33784E-01}, {4.47936E-01}, {3.77585E-01}, {3.19739E-01},
+       {2.72013E-01}, {2.32497E-01}, {1.99659E-01}, {1.72270E-01}, {1.49341E-01}, {1.30070E-01},
+       {1.13812E-01}, {1.00042E-01}, {8.83321E-02}, {7.83354E-02}, {6.97669E-02}, {6.23931E-02}};
 
 // misra1b
 inline std::vector<std::vector<double>> misra1b_points
-- 
2.43.0


From 8e52d5db4f0ed1f200a1e306b1acaa96b324ac83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:13 +0000
Subject: [PATCH 14/24] fix: calling, copying or inspecting a moved-from
 function is well defined instead of dereferencing a null pointer

---
 include/dcgp/function.hpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/include/dcgp/function.hpp b/include/dcgp/function.hpp
index 00295b0..6c9f3d5 100644
--- a/include/dcgp/function.hpp
+++ b/include/dcgp/function.hpp
@@ -154,7 +154,10 @@ class function<R(Args...)>
 
 public:
     function() : function(static_cast<f_ptr>(nullptr)) {}
-    function(const function &other) : m_ptr(other.ptr()->clone()), m_thread_safety(other.m_thread_safety) {}
+    function(const function &other)
+        : m_ptr(other.is_valid() ? other.ptr()->clone() : nullptr), m_thread_safety(other.m_thread_safety)
+    {
+    }
     function(function &&) noexcept = default;
     function &operator=(function &&other) noexcept
     {
@@ -181,13 +184,13 @@ public:
     template <typename T>
     const T *extract() const noexcept
     {
-        auto p = dynamic_cast<const detail::function_inner<T, R, Args...> *>(ptr());
+        auto p = dynamic_cast<const detail::function_inner<T, R, Args...> *>(m_ptr.get());
         return p == nullptr ? nullptr : &(p->m_value);
     }
     template <typename T>
     T *extract() noexcept
     {
-        auto p = dynamic_cast<detail::function_inner<T, R, Args...> *>(ptr());
+        auto p = dynamic_cast<detail::function_inner<T, R, Args...> *>(m_ptr.get());
         return p == nullptr ? nullptr : &(p->m_value);
     }
     template <typename T>
@@ -198,6 +201,10 @@ public:
 
     R operator()(Args... args) const
     {
+        if (!is_valid()) {
+            throw std::runtime_error(
+                "This dcgp::function object cannot be invoked because it does not contain any callable (it was moved from)");
+        }
         auto ptr = extract<f_ptr>();
         if (ptr != nullptr && *ptr == nullptr) {
             throw std::runtime_error(
-- 
2.43.0


From 589c8aa7bec96f819868083afd1f2da635d7dff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:34 +0000
Subject: [PATCH 15/24] fix: the thread safety level of a kernel is saved and
 loaded, and initialised by the default constructor

---
 include/dcgp/kernel.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/dcgp/kernel.hpp b/include/dcgp/kernel.hpp
index cdc2164..377f173 100644
--- a/include/dcgp/kernel.hpp
+++ b/include/dcgp/kernel.hpp
@@ -157,6 +157,7 @@ public:
         ar &m_f;
         ar &m_pf;
         ar &m_name;
+        ar &m_thread_safety;
     }
 
 private:
@@ -167,7 +168,7 @@ private:
     /// Its name
     std::string m_name;
     // Thread safety.
-    pagmo::thread_safety m_thread_safety;
+    pagmo::thread_safety m_thread_safety = pagmo::thread_safety::basic;
 };
 
 } // end of namespace dcgp
-- 
2.43.0


From 37e7ee64a53cf974aea59d2b74ea94f9ccdb010c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:12 +0000
Subject: [PATCH 16/24] fix: moes4cgp saves and loads its tolerance

---
 include/dcgp/algorithms/moes4cgp.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/dcgp/algorithms/moes4cgp.hpp b/include/dcgp/algorithms/moes4cgp.hpp
index 897c64e..3a31e52 100644
--- a/include/dcgp/algorithms/moes4cgp.hpp
+++ b/include/dcgp/algorithms/moes4cgp.hpp
@@ -366,6 +366,7 @@ public:
     {
         ar &m_gen;
         ar &m_max_mut;
+        ar &m_ftol;
         ar &m_learn_constants;
         ar &m_e;
         ar &m_seed;
-- 
2.43.0


From 330db0b588020f7ea6f52347a60697b95e444850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:35 +0000
Subject: [PATCH 17/24] fix: gd4cgp saves and loads its selection and
 replacement policies

---
 include/dcgp/algorithms/gd4cgp.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/dcgp/algorithms/gd4cgp.hpp b/include/dcgp/algorithms/gd4cgp.hpp
index 9b26e7b..f08d056 100644
--- a/include/dcgp/algorithms/gd4cgp.hpp
+++ b/include/dcgp/algorithms/gd4cgp.hpp
@@ -290,6 +290,7 @@ public:
     template <typename Archive>
     void serialize(Archive &ar, unsigned)
     {
+        ar &boost::serialization::base_object<pagmo::not_population_based>(*this);
         ar &m_max_iter;
         ar &m_lr;
         ar &m_lr_min;
-- 
2.43.0


From b74c2d5a3c46eda0cb8679e7d9fc5ee862e9cb56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:35 +0000
Subject: [PATCH 18/24] fix: the default constructed symbolic regression
 problem has a defined loss type

---
 include/dcgp/problems/symbolic_regression.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/dcgp/problems/symbolic_regression.hpp b/include/dcgp/problems/symbolic_regression.hpp
index b9991fb..3e5d344 100644
--- a/include/dcgp/problems/symbolic_regression.hpp
+++ b/include/dcgp/problems/symbolic_regression.hpp
@@ -51,7 +51,8 @@ public:
      */
     symbolic_regression()
         : m_points(1), m_labels(1), m_r(1), m_c(1), m_l(1), m_arity(2), m_f(kernel_set<double>({"sum"})()), m_n_eph(0),
-          m_multi_objective(true), m_parallel_batches(0u), m_loss_s("MSE")
+          m_multi_objective(true), m_parallel_batches(0u), m_loss_s("MSE"),
+          m_loss_e(dcgp::expression<audi::gdual_v>::loss_type::MSE)
     {
     }
 
-- 
2.43.0


From ce693978d700d4579700f9906a570f8b11550b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:35 +0000
Subject: [PATCH 19/24] fix: symbolic_regression rejects an empty set of labels
 instead of reading past its end

---
 include/dcgp/problems/symbolic_regression.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dcgp/problems/symbolic_regression.hpp b/include/dcgp/problems/symbolic_regression.hpp
index 3e5d344..733e756 100644
--- a/include/dcgp/problems/symbolic_regression.hpp
+++ b/include/dcgp/problems/symbolic_regression.hpp
@@ -571,14 +571,14 @@ private:
         if (m_points.size() == 0) {
             throw std::invalid_argument("The size of the input data (points) is zero.");
         }
-        n = static_cast<unsigned>(m_points[0].size());
-        m = static_cast<unsigned>(m_labels[0].size());
         // 2 - We check labels and points have the same (non-empty) size
         if (m_points.size() != m_labels.size()) {
             throw std::invalid_argument("The number of input data (points) is " + std::to_string(m_points.size())
                                         + " while the number of labels is " + std::to_string(m_labels.size())
                                         + ". They should be equal.");
         }
+        n = static_cast<unsigned>(m_points[0].size());
+        m = static_cast<unsigned>(m_labels[0].size());
         // 3 - We check that all p in points have the same size
         if (!std::all_of(m_points.begin(), m_points.end(),
                          [n](const std::vector<double> &p) { return p.size() == n; })) {
-- 
2.43.0


From 740583cd43f68740f8eef92d1b1df8928d1d2eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:37 +0000
Subject: [PATCH 20/24] fix: the fitness of symbolic regression does not depend
 on earlier gradients and corrections

---
 include/dcgp/problems/symbolic_regression.hpp | 22 ++++++++++++++-----
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/include/dcgp/problems/symbolic_regression.hpp b/include/dcgp/problems/symbolic_regression.hpp
index 733e756..8b67b46 100644
--- a/include/dcgp/problems/symbolic_regression.hpp
+++ b/include/dcgp/problems/symbolic_regression.hpp
@@ -199,9 +199,7 @@ public:
         // TODO: make this work also when m_parallel_batches does not divide exactly the data size.
         auto loss = m_dcgp.loss(m_dpoints, m_dlabels, m_loss_e);
         // Now we extract fitness and gradient and store the values in the caches or in the return value
-        m_cache_fitness.first = x;
-        m_cache_fitness.second.resize(get_nobj());
-        m_cache_fitness.second[0] = collapse(loss.constant_cf());
+        cache_fitness(x, collapse(loss.constant_cf()));
 
         loss.extend_symbol_set(m_deph_symb);
         if (!(loss.get_order() == 0u)) { // this happens when input terminals of the eph constants are inactive
@@ -276,9 +274,7 @@ public:
         loss.extend_symbol_set(m_deph_symb);
 
         // Now we extract fitness, gradient and hessians from the gdual and store the values (retval or cache)
-        m_cache_fitness.first = x;
-        m_cache_fitness.second.resize(get_nobj());
-        m_cache_fitness.second[0] = collapse(loss.constant_cf());
+        cache_fitness(x, collapse(loss.constant_cf()));
         // We compute the gradient and the hessian only if
         // the loss depends on at least one ephemeral constant.
         // Otherwise the initialization values will be returned, that is zeros.
@@ -528,6 +524,7 @@ public:
     {
         m_cgp.set_phenotype_correction(pc);
         m_dcgp.set_phenotype_correction(dpc);
+        m_cache_fitness = {};
     }
 
     /// Unsets the phenotype correction
@@ -535,9 +532,22 @@ public:
     {
         m_cgp.unset_phenotype_correction();
         m_dcgp.unset_phenotype_correction();
+        m_cache_fitness = {};
     }
 
 private:
+    // Stores the loss computed by the dCGP together with its differentials. The dCGP uses the unprotected division in
+    // place of the protected one: in that case its loss is not the fitness.
+    void cache_fitness(const pagmo::vector_double &x, double loss) const
+    {
+        if (std::any_of(m_f.begin(), m_f.end(), [](const auto &ker) { return ker.get_name() == "pdiv"; })) {
+            return;
+        }
+        m_cache_fitness.first = x;
+        m_cache_fitness.second.resize(get_nobj());
+        m_cache_fitness.second[0] = loss;
+    }
+
     // Collapses a vectorized cf into one (taking the mean)
     static inline double collapse(const audi::vectorized<double> &vec)
     {
-- 
2.43.0


From 40c5b0a2c012cff8ff2f73aa806c9363b14edb0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:56 +0000
Subject: [PATCH 21/24] fix: gradients and hessians of symbolic regression are
 in the order of the constants with ten or more of them

---
 include/dcgp/problems/symbolic_regression.hpp | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/include/dcgp/problems/symbolic_regression.hpp b/include/dcgp/problems/symbolic_regression.hpp
index 8b67b46..ea6ff84 100644
--- a/include/dcgp/problems/symbolic_regression.hpp
+++ b/include/dcgp/problems/symbolic_regression.hpp
@@ -3,6 +3,8 @@
 #include <algorithm>
 #include <functional>
 #include <numeric> // std::accumulate
+#include <string>
+#include <unordered_map>
 #include <vector>
 
 #include <audi/gdual.hpp>
@@ -205,9 +207,7 @@ public:
         if (!(loss.get_order() == 0u)) { // this happens when input terminals of the eph constants are inactive
                                          // (gradient is then zero)
             for (decltype(m_n_eph) i = 0u; i < m_n_eph; ++i) {
-                std::vector<unsigned> coeff(m_n_eph, 0.);
-                coeff[i] = 1.;
-                auto dvec = loss.get_derivative(coeff);
+                auto dvec = loss.get_derivative(std::unordered_map<std::string, unsigned>{{m_deph_symb[i], 1u}});
                 retval[i] = collapse(dvec);
             }
         }
@@ -281,16 +281,14 @@ public:
         if (!(loss.get_order() == 0u)) {
             // gradient (we cache it)
             for (decltype(m_n_eph) i = 0u; i < m_n_eph; ++i) {
-                std::vector<unsigned> coeff(m_n_eph, 0.);
-                coeff[i] = 1.;
-                auto deriv = loss.get_derivative(coeff);
+                auto deriv = loss.get_derivative(std::unordered_map<std::string, unsigned>{{m_deph_symb[i], 1u}});
                 m_cache_gradient.second[i] = collapse(deriv);
             }
             // hessian (we return it)
             for (decltype(hd) i = 0u; i < hd; ++i) {
-                std::vector<unsigned> coeff(m_n_eph, 0.);
-                coeff[hs[0][i].first] = 1;
-                coeff[hs[0][i].second] += 1;
+                std::unordered_map<std::string, unsigned> coeff;
+                coeff[m_deph_symb[hs[0][i].first]] += 1u;
+                coeff[m_deph_symb[hs[0][i].second]] += 1u;
                 auto deriv = loss.get_derivative(coeff);
                 retval[0][i] = collapse(deriv);
             }
-- 
2.43.0


From 2add317f314d8847fcfd6f4f4cb655191f905e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:34 +0000
Subject: [PATCH 22/24] fix: es4cgp and moes4cgp keep the constants of the
 parent, instead of setting them to zero, when not learning them

---
 include/dcgp/algorithms/es4cgp.hpp   | 3 ++-
 include/dcgp/algorithms/moes4cgp.hpp | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/dcgp/algorithms/es4cgp.hpp b/include/dcgp/algorithms/es4cgp.hpp
index 0c83b66..a6972e3 100644
--- a/include/dcgp/algorithms/es4cgp.hpp
+++ b/include/dcgp/algorithms/es4cgp.hpp
@@ -179,7 +179,8 @@ public:
                 std::transform(mutated_x.begin(), mutated_x.end(), dvs.data() + i * dim + n_eph,
                                [](unsigned a) { return boost::numeric_cast<double>(a); });
 
-                // We then mutate the continuous part if requested
+                // The continuous part is the parent's, mutated if requested
+                std::copy(best_x.data(), best_x.data() + n_eph, dvs.data() + i * dim);
                 if (m_learn_constants) {
                     for (auto j = 0u; j < n_eph; ++j) {
                         mutated_eph_val[j] = best_x[j] + 10. * normal(m_e);
diff --git a/include/dcgp/algorithms/moes4cgp.hpp b/include/dcgp/algorithms/moes4cgp.hpp
index 3a31e52..2732725 100644
--- a/include/dcgp/algorithms/moes4cgp.hpp
+++ b/include/dcgp/algorithms/moes4cgp.hpp
@@ -181,7 +181,8 @@ public:
                 std::transform(cgp.get().begin(), cgp.get().end(), dvs.data() + i * dim + n_eph,
                                [](unsigned a) { return boost::numeric_cast<double>(a); });
 
-                // We then mutate the continuous part if requested
+                // The continuous part is the parent's, mutated if requested
+                std::copy(pop.get_x()[i].data(), pop.get_x()[i].data() + n_eph, dvs.data() + i * dim);
                 if (m_learn_constants) {
                     for (auto j = 0u; j < n_eph; ++j) {
                         dvs[i * dim + j] = pop.get_x()[i][j] + 10. * normal(m_e);
-- 
2.43.0


From ab1be031c617625eed6a3a809e51fc660ee77f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:03 +0000
Subject: [PATCH 23/24] fix: a default constructed function wrapper has the
 basic thread safety level, instead of an indeterminate one

---
 include/dcgp/function.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dcgp/function.hpp b/include/dcgp/function.hpp
index 6c9f3d5..ad718b3 100644
--- a/include/dcgp/function.hpp
+++ b/include/dcgp/function.hpp
@@ -262,7 +262,7 @@ private:
     // Pointer to the inner base function.
     std::unique_ptr<detail::function_inner_base<R, Args...>> m_ptr;
     // Thread safety.
-    pagmo::thread_safety m_thread_safety;
+    pagmo::thread_safety m_thread_safety = pagmo::thread_safety::basic;
 };
 
 } // namespace dcgp
-- 
2.43.0


From 83fd72462909021c45cdc8fd3eea322f426d1fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:25 +0000
Subject: [PATCH 24/24] fix: ReLu, ELU and step decide for each component of a
 vectorized gdual, instead of once for all of them

---
 include/dcgp/wrapped_functions.hpp | 66 ++++++++++++++++++++++++++++--
 1 file changed, 63 insertions(+), 3 deletions(-)

diff --git a/include/dcgp/wrapped_functions.hpp b/include/dcgp/wrapped_functions.hpp
index e73458c..1cca370 100644
--- a/include/dcgp/wrapped_functions.hpp
+++ b/include/dcgp/wrapped_functions.hpp
@@ -274,6 +274,18 @@ struct print_my_tanh_func {
 
 inline constexpr auto print_my_tanh = print_my_tanh_func{};
 
+// The step function (zero on negative numbers, one elsewhere) of each of the components of a vectorized gdual.
+// A comparison of its coefficient would decide for all of them at once.
+inline audi::gdual_v step_by_component(const audi::gdual_v &x)
+{
+    const auto cf = x.constant_cf();
+    std::vector<double> retval(cf.begin(), cf.end());
+    for (auto &v : retval) {
+        v = v < 0 ? 0. : 1.;
+    }
+    return audi::gdual_v(retval);
+}
+
 // ReLu function (double overload):
 template <typename T, typename = void>
 struct my_relu_func {
@@ -294,7 +306,7 @@ struct my_relu_func {
 
 // ReLu function (gdual overload):
 template <typename T>
-struct my_relu_func<T, std::enable_if_t<is_gdual<T>::value>> {
+struct my_relu_func<T, std::enable_if_t<is_gdual<T>::value && !std::is_same<T, audi::gdual_v>::value>> {
     /// Call operator
     T operator()(const std::vector<T> &in) const
     {
@@ -310,6 +322,22 @@ struct my_relu_func<T, std::enable_if_t<is_gdual<T>::value>> {
     DCGP_S11N_EMPTY_SERIALIZE_MEMFN()
 };
 
+// ReLu function (vectorized gdual overload):
+template <typename T>
+struct my_relu_func<T, std::enable_if_t<std::is_same<T, audi::gdual_v>::value>> {
+    /// Call operator
+    T operator()(const std::vector<T> &in) const
+    {
+        T retval(in[0]);
+        for (auto i = 1u; i < in.size(); ++i) {
+            retval += in[i];
+        }
+        retval *= step_by_component(retval);
+        return retval;
+    }
+    DCGP_S11N_EMPTY_SERIALIZE_MEMFN()
+};
+
 template <typename T>
 inline constexpr auto my_relu = my_relu_func<T>{};
 
@@ -348,7 +376,7 @@ struct my_elu_func {
 
 // Exponential linear unit (ELU) function (gdual overload):
 template <typename T>
-struct my_elu_func<T, std::enable_if_t<is_gdual<T>::value>> {
+struct my_elu_func<T, std::enable_if_t<is_gdual<T>::value && !std::is_same<T, audi::gdual_v>::value>> {
     /// Call operator
     T operator()(const std::vector<T> &in) const
     {
@@ -364,6 +392,23 @@ struct my_elu_func<T, std::enable_if_t<is_gdual<T>::value>> {
     DCGP_S11N_EMPTY_SERIALIZE_MEMFN()
 };
 
+// Exponential linear unit (ELU) function (vectorized gdual overload):
+template <typename T>
+struct my_elu_func<T, std::enable_if_t<std::is_same<T, audi::gdual_v>::value>> {
+    /// Call operator
+    T operator()(const std::vector<T> &in) const
+    {
+        T retval(in[0]);
+        for (auto i = 1u; i < in.size(); ++i) {
+            retval += in[i];
+        }
+        const auto positive = step_by_component(retval);
+        // Where x is not negative this is x + (exp(0) - 1), elsewhere exp(x) - 1
+        return retval * positive + (audi::exp(retval - retval * positive) - T(1.));
+    }
+    DCGP_S11N_EMPTY_SERIALIZE_MEMFN()
+};
+
 template <typename T>
 inline constexpr auto my_elu = my_elu_func<T>{};
 
@@ -618,7 +663,7 @@ struct my_step_func {
 
 // step function (gdual overload):
 template <typename T>
-struct my_step_func<T, std::enable_if_t<is_gdual<T>::value>> {
+struct my_step_func<T, std::enable_if_t<is_gdual<T>::value && !std::is_same<T, audi::gdual_v>::value>> {
     T operator()(const std::vector<T> &in) const
     {
         T retval(in[0]);
@@ -635,6 +680,21 @@ struct my_step_func<T, std::enable_if_t<is_gdual<T>::value>> {
     DCGP_S11N_EMPTY_SERIALIZE_MEMFN()
 };
 
+// step function (vectorized gdual overload):
+template <typename T>
+struct my_step_func<T, std::enable_if_t<std::is_same<T, audi::gdual_v>::value>> {
+    /// Call operator
+    T operator()(const std::vector<T> &in) const
+    {
+        T retval(in[0]);
+        for (auto i = 1u; i < in.size(); ++i) {
+            retval += in[i];
+        }
+        return step_by_component(retval);
+    }
+    DCGP_S11N_EMPTY_SERIALIZE_MEMFN()
+};
+
 template <typename T>
 inline constexpr auto my_step = my_step_func<T>{};
 
-- 
2.43.0

