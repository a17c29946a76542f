From 5382e21bd69e07a7b7b6714c6cd6ad9d27721087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:28 +0000
Subject: [PATCH 1/5] fix: make the flag which guards the start-up banner
 thread-safe

Two threads which created their first (verbose) HierarchyCalculator at
the same time raced on isInfoPrinted and could both print the banner.
---
 source/himalaya/HierarchyCalculator.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/himalaya/HierarchyCalculator.cpp b/source/himalaya/HierarchyCalculator.cpp
index 20d0ff0..85ba3b5 100644
--- a/source/himalaya/HierarchyCalculator.cpp
+++ b/source/himalaya/HierarchyCalculator.cpp
@@ -24,6 +24,7 @@
 
 #include <algorithm>
 #include <array>
+#include <atomic>
 #include <cmath>
 #include <iostream>
 #include <numeric>
@@ -39,7 +40,7 @@
 
 namespace himalaya {
 
-static bool isInfoPrinted; ///< if true, no info will be printed
+static std::atomic<bool> isInfoPrinted{false}; ///< if true, no info will be printed
 
 namespace {
 
@@ -153,9 +154,8 @@ void printInfo()
 HierarchyCalculator::HierarchyCalculator(const Parameters& p_, bool verbose_)
    : p(p_), verbose(verbose_)
 {
-   if (!isInfoPrinted && verbose) {
+   if (verbose && !isInfoPrinted.exchange(true)) {
       printInfo();
-      isInfoPrinted = true;
    }
 
    p.validate(verbose);
-- 
2.43.0


From a9254cc4fa41e33c5012285901b40ddb44eed550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:28 +0000
Subject: [PATCH 2/5] fix: reject Yukawa matrices with non-finite entries

Eigen::JacobiSVD does not decompose a matrix which contains a NaN or an
infinity and leaves the singular values uninitialized.  Parameters::validate
used them as Yukawa couplings, so that quark masses and all results derived
from them depended on the previous contents of the stack.
---
 source/himalaya/Himalaya_interface.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/source/himalaya/Himalaya_interface.cpp b/source/himalaya/Himalaya_interface.cpp
index 62d110e..7083581 100644
--- a/source/himalaya/Himalaya_interface.cpp
+++ b/source/himalaya/Himalaya_interface.cpp
@@ -120,6 +120,12 @@ void calc_theta(double& theta, double& s2t)
 
 RM33 h_svd(const RM33& M)
 {
+   // the singular values of a matrix with non-finite entries are not defined
+   // (Eigen leaves them uninitialized)
+   if (!M.allFinite()) {
+      throw std::runtime_error("Yukawa matrix has non-finite entries!");
+   }
+
    Eigen::JacobiSVD<RM33> svd(M);
    return svd.singularValues().reverse().asDiagonal();
 }
-- 
2.43.0


From 344b7d1bb1338aecfce384fd1286fcf4b6857dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:49 +0000
Subject: [PATCH 3/5] fix: LibraryLink: recover the link after a failed read

If the parameter list could not be read (e.g. due to a non-numeric entry), the
link was left in its error state and with the unread arguments, so that
neither the error message nor $Failed reached the front end.
---
 .../LibraryLink/Himalaya_LibraryLink.cpp        | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/source/himalaya/LibraryLink/Himalaya_LibraryLink.cpp b/source/himalaya/LibraryLink/Himalaya_LibraryLink.cpp
index 178bb44..7174316 100644
--- a/source/himalaya/LibraryLink/Himalaya_LibraryLink.cpp
+++ b/source/himalaya/LibraryLink/Himalaya_LibraryLink.cpp
@@ -234,6 +234,21 @@ std::vector<double> read_list(MLINK link)
 
 /******************************************************************/
 
+/// reads the parameter list; if that fails, the link is left in a state
+/// in which the failure can be reported
+std::vector<double> read_request(MLINK link)
+{
+   try {
+      return read_list(link);
+   } catch (...) {
+      MLClearError(link);
+      MLNewPacket(link); // discard the unread rest of the request
+      throw;
+   }
+}
+
+/******************************************************************/
+
 struct Data {
    himalaya::Parameters pars{};
    bool bottom{false};
@@ -521,7 +536,7 @@ DLLEXPORT int HimalayaCalculateDMh3L(
    try {
       Redirect_output rd(link);
 
-      const auto res = calculate_results(make_data(read_list(link)));
+      const auto res = calculate_results(make_data(read_request(link)));
 
       rd.flush();
 
-- 
2.43.0


From d1b8c5ae3fa7515c2daa29c8f35b1f5bb35fbe17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:59 +0000
Subject: [PATCH 4/5] fix: LibraryLink: always send a complete reply if memory
 is exhausted

Strings and vectors were allocated outside of the try block, in the handlers
and while the result list was being written.  A failed allocation let an
exception escape into the kernel or left an incomplete expression on the link.
---
 .../LibraryLink/Himalaya_LibraryLink.cpp      | 29 ++++++++++---------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/source/himalaya/LibraryLink/Himalaya_LibraryLink.cpp b/source/himalaya/LibraryLink/Himalaya_LibraryLink.cpp
index 7174316..39473ab 100644
--- a/source/himalaya/LibraryLink/Himalaya_LibraryLink.cpp
+++ b/source/himalaya/LibraryLink/Himalaya_LibraryLink.cpp
@@ -10,6 +10,7 @@
 #include "himalaya/mh2_eft/Mh2EFTCalculator.hpp"
 #include "himalaya/mh2_fo/MSSM_mass_eigenstates.hpp"
 
+#include <cstring>
 #include <iostream>
 #include <sstream>
 #include <string>
@@ -118,14 +119,14 @@ void MLPut(MLINK link, const std::vector<T>& v)
 
 /********************* put rules to types *********************/
 
-void MLPutRule(MLINK link, const std::string& name)
+void MLPutRule(MLINK link, const char* name)
 {
    MLPutFunction(link, "Rule", 2);
-   MLPutUTF8Symbol(link, reinterpret_cast<const unsigned char*>(name.c_str()), name.size());
+   MLPutUTF8Symbol(link, reinterpret_cast<const unsigned char*>(name), std::strlen(name));
 }
 
 template <class T1>
-void MLPutRuleTo(MLINK link, T1 t, const std::string& name)
+void MLPutRuleTo(MLINK link, const T1& t, const char* name)
 {
    MLPutRule(link, name);
    MLPut(link, t);
@@ -134,12 +135,12 @@ void MLPutRuleTo(MLINK link, T1 t, const std::string& name)
 /******************************************************************/
 
 void put_message(MLINK link,
-                 const std::string& message_function,
-                 const std::string& message_str)
+                 const char* message_function,
+                 const char* message_str)
 {
    MLPutFunction(link, "CompoundExpression", 2);
-   MLPutFunction(link, message_function.c_str(), 1);
-   MLPutUTF8String(link, reinterpret_cast<const unsigned char*>(message_str.c_str()), message_str.size());
+   MLPutFunction(link, message_function, 1);
+   MLPutUTF8String(link, reinterpret_cast<const unsigned char*>(message_str), std::strlen(message_str));
 }
 
 /******************************************************************/
@@ -164,7 +165,7 @@ public:
    void flush() {
       std::string line;
       while (std::getline(buffer, line)) {
-         put_message(link, "HimalayaInfoMessage", line);
+         put_message(link, "HimalayaInfoMessage", line.c_str());
       }
    }
 
@@ -190,7 +191,7 @@ long number_of_args(MLINK link, const std::string& head)
 /******************************************************************/
 
 bool check_number_of_args(MLINK link, long number_of_arguments,
-                          const std::string& function_name)
+                          const char* function_name)
 {
    const auto n_given = number_of_args(link, "List");
    const bool ok = n_given == number_of_arguments;
@@ -442,15 +443,14 @@ Results calculate_results(const Data& data)
 
 void put_result(const Results& res, MLINK link)
 {
-   MLPutFunction(link, "List", 13);
-
    const auto& ho = res.ho;
    const auto& eft = res.eft;
    const auto& fo = res.fo;
    const auto& fo_dom = res.fo_dom;
 
    const auto hierarchy = ho.getSuitableHierarchy();
-   const std::string msf = ho.getIsAlphab() ? "MsbottomMDRPrime" : "MstopMDRPrime";
+   const char* msf = ho.getIsAlphab() ? "MsbottomMDRPrime" : "MstopMDRPrime";
+   const auto hierarchy_name = ho.getH3mHierarchyNotation(hierarchy);
 
    Eigen::Vector4d expansion_uncertainty;
    expansion_uncertainty << 0., ho.getDMhExpUncertainty(1),
@@ -501,8 +501,11 @@ void put_result(const Results& res, MLINK link)
    Mh2_fo_dominant << std::get<0>(fo_dom), std::get<1>(fo_dom),
                       std::get<2>(fo_dom), std::get<3>(fo_dom);
 
+   // nothing must be able to fail from here on, otherwise an incomplete
+   // list would be sent
+   MLPutFunction(link, "List", 13);
    MLPutRuleTo(link, hierarchy, "hierarchyID");
-   MLPutRuleTo(link, ho.getH3mHierarchyNotation(hierarchy), "hierarchyName");
+   MLPutRuleTo(link, hierarchy_name, "hierarchyName");
    MLPutRuleTo(link, ho.getMDRMasses(), msf);
    MLPutRuleTo(link, Mh2, "Mh2");
    MLPutRuleTo(link, Mh2_shift_DRp_to_MDRp, "Mh2ShiftDRbarPrimeToMDRPrime");
-- 
2.43.0


From a57100f73ff8abb4796ef5fb7e19fd23597cf59d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:13 +0000
Subject: [PATCH 5/5] fix: do not return uninitialized singular values

Eigen::JacobiSVD does not decompose a matrix which contains a NaN or an
infinity and leaves the singular values and vectors uninitialized.  The
chargino mixing matrices printed for such a parameter point therefore
depended on the previous contents of the stack.
---
 source/himalaya/mh2_fo/Linalg.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/source/himalaya/mh2_fo/Linalg.hpp b/source/himalaya/mh2_fo/Linalg.hpp
index 886a534..5b62a4e 100644
--- a/source/himalaya/mh2_fo/Linalg.hpp
+++ b/source/himalaya/mh2_fo/Linalg.hpp
@@ -48,6 +48,16 @@ void svd_eigen
  Eigen::Matrix<Scalar, M, M> *u,
  Eigen::Matrix<Scalar, N, N> *vh)
 {
+    // Eigen does not decompose a matrix with non-finite entries and leaves the
+    // singular values and vectors uninitialized
+    if (!m.allFinite()) {
+        const Real nan = std::numeric_limits<Real>::quiet_NaN();
+        s.setConstant(nan);
+        if (u)  u->setConstant(nan);
+        if (vh) vh->setConstant(nan);
+        return;
+    }
+
     Eigen::JacobiSVD<Eigen::Matrix<Scalar, M, N> >
 	svd(m, (u ? Eigen::ComputeFullU : 0) | (vh ? Eigen::ComputeFullV : 0));
     s = svd.singularValues();
-- 
2.43.0

