From 300f88bcf700ad1effc0a5fcfb8c899496cbad50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:59 +0000
Subject: [PATCH 01/45] fix: sequential reduction centres each quadrature rule
 at the conditional mean

The conditional mean of one component of a normal vector given the others is
mean1 + cross * (x - mean2), with cross = variance22^-1 variance21; the sign of
the correction (and of the matching chain-rule terms in the derivatives) was
reversed, so the rule was centred in the wrong place away from the mode and the
approximation was not even exact for Gaussian models.
---
 src/IntegratedFunction.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/IntegratedFunction.cpp b/src/IntegratedFunction.cpp
index 409ff99..8e8af1e 100644
--- a/src/IntegratedFunction.cpp
+++ b/src/IntegratedFunction.cpp
@@ -95,7 +95,7 @@ double IntegratedFunction::findConditionalMean(const Vector& x) const
 {
   double mu = mean1_;
   if(x.size() > 0)
-    mu -= cross_.dot(x - mean2_);
+    mu += cross_.dot(x - mean2_);
   
   return mu;
 }
@@ -131,7 +131,7 @@ Vector IntegratedFunction::integrateDerivativeNoLog
     Vector derivative =  derivativeFunction_(xExt) * value;
     Vector derivativeRem = getVectorWithout(integrateOver_,
 					    derivative);
-    Vector correction = -cross_ * derivative(integrateOver_);
+    Vector correction = cross_ * derivative(integrateOver_);
     Eigen::ArrayXd ret = (derivativeRem + correction).array();
     return ret;
   };
@@ -163,8 +163,8 @@ Matrix IntegratedFunction::integrateSecondDerivativeNoLog
     double secondDerivative11 = secondDerivative(integrateOver_,
 						 integrateOver_);
     Matrix ret = secondDerivative22;
-    ret -= cross_ * secondDerivative12.transpose();
-    ret -= secondDerivative12 * cross_.transpose();
+    ret += cross_ * secondDerivative12.transpose();
+    ret += secondDerivative12 * cross_.transpose();
     ret += cross_ * cross_.transpose() * secondDerivative11;
     Eigen::ArrayXXd retArray = ret.array();
     return retArray;
-- 
2.43.0


From dc00b31113e7cb4edaeb7aa5d3c6ac5c02b5258a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:49 +0000
Subject: [PATCH 02/45] fix: draw importance samples from the Gaussian
 approximation's own covariance

With C the inverse of the upper Cholesky factor of the precision, C z has
variance precision^-1; crossprod(C, z) = t(C) z has not, unless the precision
is diagonal, while the weights assume that it has.
---
 R/IS.R | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/R/IS.R b/R/IS.R
index 0fe8158..51bd91f 100644
--- a/R/IS.R
+++ b/R/IS.R
@@ -61,7 +61,7 @@ find_log_integrand<- function(pars, modfr)
 
 transform_normal <- function(z, normal_approx) {
   C <- solve(chol(normal_approx$precision))
-  normal_approx$mean + crossprod(C, z)
+  normal_approx$mean + C %*% z
 }
 
 find_log_weights <- function(z, log_integrand, normal_approx) {
-- 
2.43.0


From 3a117871be42bdfa88ff6e10fa1e8a6b59c75bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:14 +0000
Subject: [PATCH 03/45] fix: keep the other terms of a formula with Sub() terms
 as written

With (1 | gr) and any other term beside Sub(), the rest of the formula was
rebuilt as (x + 1 | gr): the fixed effects became correlated random slopes. An
offset was swallowed by the bars in the same way, or dropped.
---
 R/subformula.R | 18 ++++++++++--------
 R/utility.R    | 26 --------------------------
 2 files changed, 10 insertions(+), 34 deletions(-)

diff --git a/R/subformula.R b/R/subformula.R
index 623912b..897e343 100644
--- a/R/subformula.R
+++ b/R/subformula.R
@@ -17,14 +17,16 @@ split_formula <- function(formula) {
     fac <- attr(tf, "factors")
     rhs_vars <- attr(fac, "dimnames")[[2]]
     var_sub_rhs <- sapply(var_sub, find_var_rhs, fac = fac)
-    if(length(rhs_vars) > length(var_sub_rhs)){
-      attr(tf, "intercept") <- 1
-      tf_no_sub <- drop.terms(tf, var_sub_rhs, keep.response = TRUE)
-      attr(tf_no_sub, "intercept") <- 0
-      form_no_sub <- fixFormulaObject(tf_no_sub)
-    } else{
-      form_no_sub <- update.formula(formula, . ~ 0)
-    }
+    # build the rest of the formula from its term labels, putting brackets
+    # around (. | group) terms, and keeping the offset
+    labels_no_sub <- rhs_vars[-var_sub_rhs]
+    is_bar <- grepl("|", labels_no_sub, fixed = TRUE)
+    labels_no_sub[is_bar] <- paste("(", labels_no_sub[is_bar], ")")
+    offsets <- as.character(attr(tf, "variables"))[-1L][attr(tf, "offset")]
+    form_no_sub <- formula(paste("lhs ~", paste(c("0", labels_no_sub, offsets),
+                                                collapse = " + ")),
+                           env = environment(formula))
+    form_no_sub[[2L]] <- formula[[2L]]
     subexprs <- lapply(rhs_vars[var_sub_rhs], find_subexpr)
   }
   else{
diff --git a/R/utility.R b/R/utility.R
index f9c1748..07db27e 100644
--- a/R/utility.R
+++ b/R/utility.R
@@ -39,32 +39,6 @@ subset_dim <- function(x, i, indices){
 }
 
 
-# copied from terms.formula
-# stop dropping of brackets around (1 | group) terms
-fixFormulaObject <- function(object) {
-  Terms <- terms(object)
-  tmp <- attr(Terms, "term.labels")
-  ind <- grep("|", tmp, fixed = TRUE)
-  if (length(ind))
-    tmp[ind] <- paste("(", tmp[ind], ")")
-  if (length(ind <- attr(Terms, "offset"))) {
-    tmp2 <- as.character(attr(Terms, "variables"))[-1L]
-    tmp <- c(tmp, tmp2[ind])
-  }
-  rhs <- if (length(tmp))
-    paste(tmp, collapse = " + ")
-  else "1"
-  if (!attr(terms(object), "intercept"))
-    rhs <- paste(rhs, "- 1")
-  if (length(form <- formula(object)) > 2L) {
-    res <- formula(paste("lhs ~", rhs))
-    res[[2L]] <- form[[2L]]
-    res
-  }
-  else formula(paste("~", rhs))
-}
-
-
 find_pairs <- function(set) {
   if(length(set) > 1L) {
     return(utils::combn(set, m = 2, simplify = FALSE))
-- 
2.43.0


From 43692f0a8c78b521ee5b304d6593c6fdaa1427d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:37 +0000
Subject: [PATCH 04/45] fix: a formula with Sub() terms keeps its intercept
 unless told not to

The intercept was always dropped, so response ~ Sub(.) meant the same as
response ~ 0 + Sub(.).
---
 R/subformula.R | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/R/subformula.R b/R/subformula.R
index 897e343..00413ac 100644
--- a/R/subformula.R
+++ b/R/subformula.R
@@ -18,12 +18,13 @@ split_formula <- function(formula) {
     rhs_vars <- attr(fac, "dimnames")[[2]]
     var_sub_rhs <- sapply(var_sub, find_var_rhs, fac = fac)
     # build the rest of the formula from its term labels, putting brackets
-    # around (. | group) terms, and keeping the offset
+    # around (. | group) terms, and keeping the offset and the intercept
     labels_no_sub <- rhs_vars[-var_sub_rhs]
     is_bar <- grepl("|", labels_no_sub, fixed = TRUE)
     labels_no_sub[is_bar] <- paste("(", labels_no_sub[is_bar], ")")
     offsets <- as.character(attr(tf, "variables"))[-1L][attr(tf, "offset")]
-    form_no_sub <- formula(paste("lhs ~", paste(c("0", labels_no_sub, offsets),
+    intercept <- as.character(attr(tf, "intercept"))
+    form_no_sub <- formula(paste("lhs ~", paste(c(intercept, labels_no_sub, offsets),
                                                 collapse = " + ")),
                            env = environment(formula))
     form_no_sub[[2L]] <- formula[[2L]]
-- 
2.43.0


From 8dafe1579141e73fe457435b0e89118e8f55167f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:51 +0000
Subject: [PATCH 05/45] fix: include any offset in the SR, IS and second-order
 Laplace likelihoods

The offset only reached the part of the calculation done by lme4, so
method = "SR" and "IS" returned the likelihood of the model without it.
---
 NAMESPACE         | 1 +
 R/IS.R            | 7 +++++--
 R/glmmsr.R        | 2 +-
 R/loglikelihood.R | 4 +++-
 R/splitframe.R    | 4 +++-
 5 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/NAMESPACE b/NAMESPACE
index fd5b29c..354f281 100644
--- a/NAMESPACE
+++ b/NAMESPACE
@@ -21,6 +21,7 @@ importFrom(stats,gaussian)
 importFrom(stats,glm)
 importFrom(stats,lm)
 importFrom(stats,model.matrix)
+importFrom(stats,model.offset)
 importFrom(stats,model.response)
 importFrom(stats,model.weights)
 importFrom(stats,na.fail)
diff --git a/R/IS.R b/R/IS.R
index 51bd91f..bd9c676 100644
--- a/R/IS.R
+++ b/R/IS.R
@@ -1,8 +1,11 @@
 find_XBeta <- function(pars, modfr) {
-  n_fixed <- ncol(modfr$X)
   n_random <- length(modfr$reTrms$theta)
-  beta <- pars[(n_random + 1) : (n_random + n_fixed)]
+  beta <- pars[-(1:n_random)]
   XBeta <- as.numeric(modfr$X %*% beta)
+  offset <- model.offset(modfr$fr)
+  if(length(offset) > 0)
+    XBeta <- XBeta + offset
+  XBeta
 }
 
 find_LambdatThetaZt <- function(pars, modfr) {
diff --git a/R/glmmsr.R b/R/glmmsr.R
index c3b2dd4..e256857 100644
--- a/R/glmmsr.R
+++ b/R/glmmsr.R
@@ -26,7 +26,7 @@
 #' @importFrom Rcpp sourceCpp
 #' @importFrom methods as
 #' @importFrom stats dnorm drop.terms family formula gaussian glm lm model.matrix
-#'  model.response model.weights na.fail offset optim pnorm rnorm terms update.formula
+#'  model.offset model.response model.weights na.fail offset optim pnorm rnorm terms update.formula
 NULL
 
 #' A dataset simulated from a two-level model
diff --git a/R/loglikelihood.R b/R/loglikelihood.R
index 8c6c721..3fe2b4d 100644
--- a/R/loglikelihood.R
+++ b/R/loglikelihood.R
@@ -40,6 +40,7 @@ find_lfun_SR <- function(modfr, devfun_lme4, nSL, nAGQ) {
 
   n_fixed <- ncol(modfr$X)
   n_random <- length(modfr$reTrms$theta)
+  has_offset <- length(model.offset(modfr$fr)) > 0
 
   factorization_terms <- find_factorization_terms(modfr)
   calibration_pars <- calibration_parameters()
@@ -64,7 +65,8 @@ find_lfun_SR <- function(modfr, devfun_lme4, nSL, nAGQ) {
            call. = FALSE)
     }
     calibration_pars$theta <- pars[1:n_random]
-    calibration_pars$beta <- pars[-(1:n_random)]
+    beta <- pars[-(1:n_random)]
+    calibration_pars$beta <- if(has_offset) c(beta, 1) else beta
     normal_approx <- compute_normal_approx(pars, devfun_lme4)
     l_SR <- beliefs$compute_log_normalizing_constant(normal_approx$mean,
                                                      normal_approx$precision,
diff --git a/R/splitframe.R b/R/splitframe.R
index 2d5e74b..a649bc9 100644
--- a/R/splitframe.R
+++ b/R/splitframe.R
@@ -30,7 +30,9 @@ add_obs <- function(cliques, act, obs) {
 find_local_term <- function(clique_ext, modfr) {
   C <- clique_ext$C
   obs_C <- clique_ext$obs_C
-  X_C <- unname(modfr$X[obs_C, , drop = FALSE])
+  # any offset is an extra column of X, with coefficient 1
+  X <- cbind(modfr$X, model.offset(modfr$fr))
+  X_C <- unname(X[obs_C, , drop = FALSE])
   Zt_C <- unname(as.matrix(modfr$reTrms$Zt[C, obs_C, drop = FALSE]))
   Lambdat_C <- modfr$reTrms$Lambdat[C, C, drop = FALSE]
   Lind_mat <- modfr$reTrms$Lambdat
-- 
2.43.0


From aeac357d1ef3098410b2e7a1e09931b4ada991cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:42 +0000
Subject: [PATCH 06/45] fix: the offset argument works for a formula with
 random effects

It always failed with object 'off' not found.
---
 R/model_frames.R | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/R/model_frames.R b/R/model_frames.R
index 6563440..cfd41ec 100644
--- a/R/model_frames.R
+++ b/R/model_frames.R
@@ -11,13 +11,15 @@ parse_formula <- function(formula, data, family, weights, off,
   if(has_re(formula)) {
     if (family$family == "gaussian")
       stop("glmmsr can't yet handle family = gaussian", call. = FALSE)
+    # glFormula looks for a variable called offset in this frame
+    offset <- off
     if(is.null(off) && is.null(weights)) {
       modfr <- lme4::glFormula(formula, data = data_vars, family = family,
                                na.action = na.fail, control = lme4_control)
     } else {
       if(is.null(weights)) {
         modfr <- lme4::glFormula(formula, data = data_vars, family = family,
-                                 na.action = na.fail, offset = off,
+                                 na.action = na.fail, offset = offset,
                                  control = lme4_control)
       } else {
         if(is.null(off)) {
@@ -27,7 +29,7 @@ parse_formula <- function(formula, data, family, weights, off,
         } else {
           modfr <- lme4::glFormula(formula, data = data_vars, family = family,
                                    na.action = na.fail, weights = weights,
-                                   offset = off, control = lme4_control)
+                                   offset = offset, control = lme4_control)
         }
       }
     }
-- 
2.43.0


From 4661aa3ba3b256549003cd6f546227b9867edb9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:25 +0000
Subject: [PATCH 07/45] fix: all likelihood approximations accept every kind of
 binomial response

A two-column (successes, failures) response was read as a vector of twice the
length by the sequential reduction engine and in the second-order Laplace
correction, and neither it nor a factor worked with method = "IS".
---
 R/IS.R         |  7 +++----
 R/hol.R        |  7 +++----
 R/splitframe.R | 22 +++-------------------
 R/utility.R    | 18 ++++++++++++++++++
 4 files changed, 27 insertions(+), 27 deletions(-)

diff --git a/R/IS.R b/R/IS.R
index bd9c676..85897c7 100644
--- a/R/IS.R
+++ b/R/IS.R
@@ -41,10 +41,9 @@ find_eta <- function(u, XBeta, LambdatThetaZt) {
 find_log_integrand<- function(pars, modfr)
 {
   family <- modfr$family
-  y <- model.response(modfr$fr)
-  weights <- model.weights(modfr$fr)
-  if(length(weights) == 0)
-    weights <- rep(1, length(y))
+  rw <- find_response_and_weights(modfr)
+  y <- rw$response
+  weights <- rw$weights
 
   XBeta <- find_XBeta(pars, modfr)
   LambdatThetaZt <- find_LambdatThetaZt(pars, modfr)
diff --git a/R/hol.R b/R/hol.R
index 6ae7d7e..dad216c 100644
--- a/R/hol.R
+++ b/R/hol.R
@@ -14,10 +14,9 @@ find_epsilon_1 <- function(pars, modfr, devfun_laplace_1) {
   LambdatThetaZt <- find_LambdatThetaZt(pars, modfr)
   eta_hat <- find_eta(u_hat, XBeta, LambdatThetaZt)
 
-  response <- model.response(modfr$fr)
-  weights <- model.weights(modfr$fr)
-  if(length(weights) == 0)
-    weights <- rep(1, length(response))
+  rw <- find_response_and_weights(modfr)
+  response <- rw$response
+  weights <- rw$weights
 
   gamma_3 <- -modfr_family$evaluate_d3(eta_hat, response, weights)
   gamma_4 <- -modfr_family$evaluate_d4(eta_hat, response, weights)
diff --git a/R/splitframe.R b/R/splitframe.R
index a649bc9..e9b683c 100644
--- a/R/splitframe.R
+++ b/R/splitframe.R
@@ -38,25 +38,9 @@ find_local_term <- function(clique_ext, modfr) {
   Lind_mat <- modfr$reTrms$Lambdat
   Lind_mat@x <- as.numeric(modfr$reTrms$Lind)
   Lind_C <- as.integer(Lind_mat[C, C, drop = FALSE]@x) - 1
-  resp <- model.response(modfr$fr)
-  if(is.factor(resp)) {
-    resp <- (resp != levels(resp)[1L])
-  }
-  weights <- model.weights(modfr$fr)
-  if(is.null(weights)) {
-    weights_C <- rep(1, length(obs_C))
-  } else {
-    weights_C <- weights[obs_C]
-  }
-  if(NCOL(resp) == 1) {
-    resp_C <- resp[obs_C]
-    resp_C <- matrix(unname(resp_C), ncol = 1)
-  } else {
-    #####################
-    # FIXME: should convert to vector form
-    resp_C <- resp[obs_C, , drop = FALSE]
-    #####################
-  }
+  rw <- find_response_and_weights(modfr)
+  resp_C <- matrix(rw$response[obs_C], ncol = 1)
+  weights_C <- rw$weights[obs_C]
   list(C = C, X = X_C, Zt = Zt_C, Lambdat = Lambdat_C,
        Lind = Lind_C, resp = resp_C, weights = weights_C)
 }
diff --git a/R/utility.R b/R/utility.R
index 07db27e..7c47746 100644
--- a/R/utility.R
+++ b/R/utility.R
@@ -47,6 +47,24 @@ find_pairs <- function(set) {
   }
 }
 
+# find the response and weights of each observation, in a common form:
+# for a binomial response, the proportion of successes (as in
+# binomial()$initialize), with the number of trials included in the weights
+find_response_and_weights <- function(modfr) {
+  response <- model.response(modfr$fr)
+  weights <- model.weights(modfr$fr)
+  if(length(weights) == 0)
+    weights <- rep(1, NROW(response))
+  if(is.factor(response)) {
+    response <- response != levels(response)[1L]
+  } else if(NCOL(response) == 2L) {
+    n_trials <- rowSums(response)
+    response <- ifelse(n_trials == 0, 0, response[, 1L] / n_trials)
+    weights <- weights * n_trials
+  }
+  list(response = as.numeric(response), weights = as.numeric(weights))
+}
+
 check_weights <- function(weights) {
   tol <- .Machine$double.eps^0.5
   if(length(weights) > 0) {
-- 
2.43.0


From 6c16d983ea95f80e558876193c831953dd1b75d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:02 +0000
Subject: [PATCH 08/45] fix: SR handles observations which involve no random
 effect

Active sets were indexed by position among the observations having one, so
after an observation with none (a random slope with covariate 0, say) the
others were paired with the wrong random effects.
---
 R/splitframe.R | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/R/splitframe.R b/R/splitframe.R
index e9b683c..d83281c 100644
--- a/R/splitframe.R
+++ b/R/splitframe.R
@@ -4,7 +4,15 @@ find_active <- function(modfr) {
   Lambdat <- modfr$reTrms$Lambdat
   LambdatZt <- Lambdat %*% Zt
   LambdatZt <- as(LambdatZt, "dgTMatrix")
-  tapply(LambdatZt@i + 1, LambdatZt@j + 1, c, simplify = FALSE)
+  # one entry for each observation, including any with no active items
+  unname(split(LambdatZt@i + 1, factor(LambdatZt@j + 1, levels = seq_len(ncol(Zt)))))
+}
+
+# Find the distinct active sets. Any observation with no active items will
+# be added to the first of them
+find_cliques <- function(act) {
+  cliques <- unique(act)
+  cliques[lengths(cliques) > 0L]
 }
 
 add_obs_C <- function(C, act, obs_rem) {
@@ -47,7 +55,7 @@ find_local_term <- function(clique_ext, modfr) {
 
 find_factorization_terms <- function(modfr) {
   act <- find_active(modfr)
-  cliques <- unname(unique(act))
+  cliques <- find_cliques(act)
   n_obs <- ncol(modfr$reTrms$Zt)
   n_re <- nrow(modfr$reTrms$Zt)
   cliques_ext <- add_obs(cliques, act, 1:n_obs)
@@ -90,7 +98,7 @@ save_factorization_to_file <- function(modfr, file = "") {
   unlink(file)
 
   act <- find_active(modfr)
-  cliques <- unname(unique(act))
+  cliques <- find_cliques(act)
   n_obs <- ncol(modfr$reTrms$Zt)
   n_re <- nrow(modfr$reTrms$Zt)
   cliques_ext <- add_obs(cliques, act, 1:n_obs)
-- 
2.43.0


From 23260a8235696cc94a39e58bbecca5e70db549b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:53 +0000
Subject: [PATCH 09/45] fix: glmm uses lme4_control when it builds the model
 frame

The checks it configures were always made with the default settings.
---
 R/fit.R | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/R/fit.R b/R/fit.R
index 6377e90..c09e533 100644
--- a/R/fit.R
+++ b/R/fit.R
@@ -51,7 +51,8 @@ glmm <- function(formula, subformula = NULL, data = NULL, family = gaussian,
   con <- find_control_with_defaults(control, method)
 
   modfr <- find_modfr_glmm(formula, subformula = subformula, data = data,
-                           family = family, weights = weights, offset = offset)
+                           family = family, weights = weights, offset = offset,
+                           lme4_control = lme4_control)
 
   if(has_reTrms(modfr)) {
     devfun_laplace_1 <- find_devfun_laplace_1(modfr, lme4_control)
-- 
2.43.0


From 2f5ed461f84616b76c833b4a65983397b1f8f765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:29 +0000
Subject: [PATCH 10/45] fix: size the initial theta of a GLMM belief by its
 indices, not its items

Lind indexes theta, and a model may have more parameters than a term has items
(correlated random effects, or several random effects terms), so the vector was
read past its end.
---
 src/GLMMBelief.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/GLMMBelief.cpp b/src/GLMMBelief.cpp
index a790f0e..300c546 100644
--- a/src/GLMMBelief.cpp
+++ b/src/GLMMBelief.cpp
@@ -70,7 +70,8 @@ void GLMMBelief::setBeta(const Eigen::VectorXd& beta)
 
 void GLMMBelief::initializeParameterDependents()
 {
-  theta_ = Eigen::VectorXd::Zero(numItems_);
+  int numTheta = (Lind_.size() > 0) ? Lind_.maxCoeff() + 1 : 0;
+  theta_ = Eigen::VectorXd::Zero(numTheta);
   beta_ = Eigen::VectorXd::Zero(numFixed_);
   setLambdatThetaZt(theta_);
   XBeta_ = X_ * beta_;
-- 
2.43.0


From dff411d2362f56fcc34634ed050ebe92e57b2768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:13 +0000
Subject: [PATCH 11/45] fix: no division by a zero bandwidth in the level 0
 basis

With nSL = 0 the knot position was 0 / 0 converted to int, and each interval
lookup converted an infinite or too large value to unsigned int.
---
 src/BasisLevel.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/BasisLevel.cpp b/src/BasisLevel.cpp
index b566bde..54c0273 100644
--- a/src/BasisLevel.cpp
+++ b/src/BasisLevel.cpp
@@ -76,7 +76,8 @@ void BasisLevel::initializeBandwidth(int levelMax)
      boost::math::normal standardNormal(0.0, 1.0);
      bandwidth_ = (scale_ * quantile(standardNormal, prob)) / 10;
   } else {
-    bandwidth_ = 0;
+    // there is a single knot, at 0: any positive value will do
+    bandwidth_ = 1;
   }
 }
 
@@ -205,9 +206,9 @@ int BasisLevel::findIntervalId(double x) const
 {
   int ret = 0;
   if(x > knots_.at(0)) {
-     unsigned int xToGrid = (x - knots_.at(0)) / bandwidth_;
+     double xToGrid = (x - knots_.at(0)) / bandwidth_;
      if(xToGrid < gridIds_.size())
-       ret = gridIds_[xToGrid];
+       ret = gridIds_[static_cast<unsigned int>(xToGrid)];
      else
        ret = (2 << level_) - 1;
   }
-- 
2.43.0


From 48b858c91a7435d7687098417afd60808b202699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:35 +0000
Subject: [PATCH 12/45] fix: concatenate the bounds and groups of random
 effects from subformulas

The lower bounds were taken from a component which does not exist, and the
grouping factors and Gp of all but the first frame were lost.
---
 R/model_frames.R | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/R/model_frames.R b/R/model_frames.R
index cfd41ec..184082e 100644
--- a/R/model_frames.R
+++ b/R/model_frames.R
@@ -108,6 +108,7 @@ is_modfr <- function(x) {
     out$reTrms$Zt <- reTrms$Zt[, i, drop = FALSE]
     out$reTrms$Ztlist <- lapply(reTrms$Ztlist, "[", j = i, drop = FALSE)
     out$reTrms$flist <- lapply(reTrms$flist, "[", j = i, drop = FALSE)
+    attr(out$reTrms$flist, "assign") <- attr(reTrms$flist, "assign")
   }
   return(out)
 }
@@ -199,11 +200,14 @@ concatenate_frames <- function(modfr1, modfr2) {
       out$reTrms$Zt <- rbind(reTrms1$Zt, reTrms2$Zt)
       out$reTrms$theta <- c(reTrms1$theta, reTrms2$theta)
       out$reTrms$Lind <- c(reTrms1$Lind, reTrms2$Lind + length(reTrms1$theta))
-      out$reTrms$Gp <- c(0L, reTrms1$Gp[2] + reTrms2$Gp[2])
-      out$reTrms$lower <- c(reTrms1$lower, reTrms2$upper)
+      out$reTrms$Gp <- c(reTrms1$Gp, max(reTrms1$Gp) + reTrms2$Gp[-1L])
+      out$reTrms$lower <- c(reTrms1$lower, reTrms2$lower)
       out$reTrms$Lambdat <- concatenate_Matrix(reTrms1$Lambdat, reTrms2$Lambdat)
+      out$reTrms$flist <- c(reTrms1$flist, reTrms2$flist)
       # need "assign" attribute to print out groups correctly
-      attr(out$reTrms$flist, "assign") <- TRUE
+      attr(out$reTrms$flist, "assign") <- c(attr(reTrms1$flist, "assign"),
+                                            length(reTrms1$flist) +
+                                              attr(reTrms2$flist, "assign"))
       out$reTrms$cnms <- c(reTrms1$cnms, reTrms2$cnms)
       out$reTrms$Ztlist <- c(reTrms1$Ztlist, reTrms2$Ztlist)
     }
-- 
2.43.0


From 57711a2ef70310dd83c9ecf4b6ddef00df70a799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:00 +0000
Subject: [PATCH 13/45] fix: print the number of groups of each random effects
 term

With two terms for one grouping factor, counts went to the wrong terms, or
were NA.
---
 R/glmmFit.R | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/R/glmmFit.R b/R/glmmFit.R
index e35c4e3..5665f72 100644
--- a/R/glmmFit.R
+++ b/R/glmmFit.R
@@ -48,6 +48,12 @@ print_subformula <- function(subformula) {
   }
 }
 
+# the number of levels of the grouping factor of each random effects term
+# (terms with the same grouping factor share an element of flist)
+nlevels_each_term <- function(flist) {
+  vapply(flist, nlevels, 1L)[attr(flist, "assign")]
+}
+
 #' Print glmmFit object
 #'
 #' @param x glmmFit object
@@ -80,7 +86,7 @@ print.glmmFit <- function(x, ...){
 
   cat("Random effects:\n")
   print(estim_random_df, digits = 4,right = FALSE, row_names = FALSE)
-  nlevels_each <- sapply(x$modfr$reTrms$flist, nlevels)
+  nlevels_each <- nlevels_each_term(x$modfr$reTrms$flist)
   y <- model.response(x$modfr$fr)
   nobs <- NROW(y)
   cat("Number of obs: ", nobs, ", groups: ", sep="")
@@ -141,7 +147,7 @@ print.summaryGlmmFit <- function(x, ...){
                                 "Estimate" = estim_random,
                                 "Std.Error" = se_random)
   print(estim_random_df, digits = 4, right = FALSE, row.names=FALSE)
-  nlevels_each <- sapply(fit$modfr$reTrms$flist, nlevels)
+  nlevels_each <- nlevels_each_term(fit$modfr$reTrms$flist)
   y <- model.response(fit$modfr$fr)
   nobs <- NROW(y)
   cat("Number of obs: ", nobs, ", groups: ", sep="")
-- 
2.43.0


From f3712e09ad77b45842cf05afcadcf895d971d94f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:47 +0000
Subject: [PATCH 14/45] fix: coefficients of a fit with no fixed effects

(p_theta + 1):p counts down when there are none, so coef had an extra NA and
vcov, print and summary failed or showed it.
---
 R/glmmFit.R | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/R/glmmFit.R b/R/glmmFit.R
index 5665f72..0640e0f 100644
--- a/R/glmmFit.R
+++ b/R/glmmFit.R
@@ -76,8 +76,7 @@ print.glmmFit <- function(x, ...){
   names_theta <- unlist(unname(x$modfr$reTrms$cnms))
   p_beta <- ncol(x$modfr$X)
   p_theta <- length(x$modfr$reTrms$theta)
-  p <- p_beta + p_theta
-  estim_fixed <- x$estim[(p_theta+1):p]
+  estim_fixed <- x$estim[p_theta + seq_len(p_beta)]
   names(estim_fixed) <- names_beta
   estim_random <- x$estim[1:p_theta]
   estim_random_df <- data.frame("Groups" = group_names,
@@ -139,7 +138,6 @@ print.summaryGlmmFit <- function(x, ...){
   names_theta <- unlist(unname(fit$modfr$reTrms$cnms))
   p_beta <- ncol(fit$modfr$X)
   p_theta <- length(fit$modfr$reTrms$theta)
-  p <- p_beta + p_theta
   estim_random <- fit$estim[1:p_theta]
   se_random <- x$se[1:p_theta]
   estim_random_df <- data.frame("Groups" = group_names,
@@ -158,7 +156,7 @@ print.summaryGlmmFit <- function(x, ...){
   cat("\n")
   cat("\n")
   cat("Fixed effects: \n")
-  which_fixed <- (p_theta+1):p
+  which_fixed <- p_theta + seq_len(p_beta)
   estim_fixed <- fit$estim[which_fixed]
   se_fixed <- x$se[which_fixed]
   z_fixed <- x$z[which_fixed]
@@ -182,10 +180,9 @@ coef_random.glmmFit <- function(x) {
 coef_fixed.glmmFit <- function(x) {
   p_theta <- length(x$modfr$reTrms$theta)
   p_beta <- ncol(x$modfr$X)
-  p <- p_beta + p_theta
 
   names_beta <- attr(x$modfr$X,"dimnames")[[2]]
-  which_fixed <- (p_theta+1):p
+  which_fixed <- p_theta + seq_len(p_beta)
   estim_fixed <- x$estim[which_fixed]
   names(estim_fixed) <- names_beta
 
-- 
2.43.0


From afb87db569ca69266cf8620117aa42c98257b0b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:11 +0000
Subject: [PATCH 15/45] fix: change the sign of covariances along with that of
 a negative theta

When the optimizer ended at a negative theta, the estimate was replaced by its
absolute value but its covariances with the other estimates were not changed.
---
 R/fit.R | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/R/fit.R b/R/fit.R
index c09e533..dfa5c71 100644
--- a/R/fit.R
+++ b/R/fit.R
@@ -70,7 +70,11 @@ glmm <- function(formula, subformula = NULL, data = NULL, family = gaussian,
                 call. = FALSE)
     }
     if(all(modfr$reTrms$lower == 0)) {
-      opt$estim[1:p_theta] <- abs(opt$estim[1:p_theta])
+      # the sign of each theta is arbitrary: choose the positive one
+      flip <- rep(1, length(opt$estim))
+      flip[1:p_theta][opt$estim[1:p_theta] < 0] <- -1
+      opt$estim <- flip * opt$estim
+      opt$Sigma <- opt$Sigma * outer(flip, flip)
       if(any(opt$estim[1:p_theta] > 4.9)) {
         opt$Sigma <- matrix(NA, nrow = length(opt$estim), ncol = length(opt$estim))
         warning("The approximate MLE might not be finite", call. = FALSE)
-- 
2.43.0


From e960db86809be7c15806d103ba6e681961774100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:32 +0000
Subject: [PATCH 16/45] fix: allow constants in substitution expressions

Sub(2 * ability[player]) failed with: Don't know how to handle type double.
---
 R/modify_subexpr.R | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/R/modify_subexpr.R b/R/modify_subexpr.R
index 8537842..9268e21 100644
--- a/R/modify_subexpr.R
+++ b/R/modify_subexpr.R
@@ -9,6 +9,9 @@ find_sub_status <- function(x, subvar) {
     sub_status_vector <- vapply(x, find_sub_status, TRUE, subvar = subvar)
     any(sub_status_vector)
   }
+  else if(is.atomic(x)) {
+    FALSE
+  }
   else{
     stop("Don't know how to handle type ", typeof(x), call. = FALSE)
   }
-- 
2.43.0


From dde4b430a87e9b6d3488231fd6f454ee89f56412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:00 +0000
Subject: [PATCH 17/45] fix: allow brackets and unary minus in substitution
 expressions

Sub(w * (ability[player1] - ability[player2])) was refused as non-linear.
---
 R/model_frames.R   | 2 ++
 R/modify_subexpr.R | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/R/model_frames.R b/R/model_frames.R
index 184082e..289b794 100644
--- a/R/model_frames.R
+++ b/R/model_frames.R
@@ -171,6 +171,8 @@ is_modfr <- function(x) {
 
 # subtract one model frame from another
 `-fr` <- function(modfr1, modfr2) {
+  if(missing(modfr2))
+    return(`*fr`(modfr1, -1L))
   if(!is_modfr(modfr1) || !is_modfr(modfr2)) {
     stop("Invalid use of `-fr`: both arguments should be model frames",
          call. = FALSE)
diff --git a/R/modify_subexpr.R b/R/modify_subexpr.R
index 9268e21..13e426b 100644
--- a/R/modify_subexpr.R
+++ b/R/modify_subexpr.R
@@ -46,7 +46,7 @@ modify_subexpr <- function(x, subvar) {
         x[[1]] <- quote(`*fr`)
       } else if(identical(x[[1]], quote(`/`))) {
         x[[1]] <- quote(`/fr`)
-      } else {
+      } else if(!identical(x[[1]], quote(`(`))) {
         stop("Substituted variables used in non-linear function",
              call. = FALSE)
       }
-- 
2.43.0


From d24cabf21f6ea382b67651f15fcf36fcbf5342e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:25 +0000
Subject: [PATCH 18/45] fix: a substituted variable multiplied by a vector is
 scaled by observation

---
 R/model_frames.R | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/R/model_frames.R b/R/model_frames.R
index 289b794..c1204c5 100644
--- a/R/model_frames.R
+++ b/R/model_frames.R
@@ -106,7 +106,7 @@ is_modfr <- function(x) {
   if(has_reTrms(modfr)) {
     reTrms <- modfr$reTrms
     out$reTrms$Zt <- reTrms$Zt[, i, drop = FALSE]
-    out$reTrms$Ztlist <- lapply(reTrms$Ztlist, "[", j = i, drop = FALSE)
+    out$reTrms$Ztlist <- lapply(reTrms$Ztlist, function(Zt) Zt[, i, drop = FALSE])
     out$reTrms$flist <- lapply(reTrms$flist, "[", j = i, drop = FALSE)
     attr(out$reTrms$flist, "assign") <- attr(reTrms$flist, "assign")
   }
@@ -114,7 +114,7 @@ is_modfr <- function(x) {
 }
 
 
-# multiply a model frame by a constant
+# multiply a model frame by a constant, or by one number for each row
 `*fr` <- function(modfr, a) {
   if(!is_modfr(modfr) || !is.numeric(a)) {
     if(is_modfr(a) && is.numeric(modfr)) {
@@ -123,11 +123,21 @@ is_modfr <- function(x) {
       stop("Invalid use of `*fr`", call. = FALSE)
     }
   }
+  n <- nrow(modfr$X)
+  if(!(length(a) %in% c(1L, n))) {
+    stop("Invalid use of `*fr`: Dimension mismatch", call. = FALSE)
+  }
   out <- modfr
-  out$X <- modfr$X * a
+  out$X <- modfr$X * as.numeric(a)
   if(has_reTrms(modfr)) {
-    out$reTrms$Zt <- modfr$reTrms$Zt * a
-    out$reTrms$Ztlist <- lapply(modfr$reTrms$Ztlist, `*`, e2 = a)
+    # each row of X is a column of Zt
+    scale_cols <- function(Zt) {
+      out <- Zt %*% Matrix::Diagonal(n, x = rep_len(as.numeric(a), n))
+      dimnames(out) <- dimnames(Zt)
+      out
+    }
+    out$reTrms$Zt <- scale_cols(modfr$reTrms$Zt)
+    out$reTrms$Ztlist <- lapply(modfr$reTrms$Ztlist, scale_cols)
   }
   return(out)
 }
@@ -163,7 +173,8 @@ is_modfr <- function(x) {
            call. = FALSE)
     }
     out$reTrms$Zt <- modfr1$reTrms$Zt + modfr2$reTrms$Zt
-    out$reTrms$Ztlist <- mapply("+", modfr1$reTrms$Ztlist, modfr2$reTrms$Ztlist)
+    out$reTrms$Ztlist <- mapply("+", modfr1$reTrms$Ztlist, modfr2$reTrms$Ztlist,
+                                SIMPLIFY = FALSE)
     # what about flist?
   }
   return(out)
-- 
2.43.0


From 234e712e1cb6d6f96b5f8104255e1afbaaec3a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:28 +0000
Subject: [PATCH 19/45] fix: a subformula may be indexed by a variable in the
 data

---
 R/indexing.R | 1 +
 1 file changed, 1 insertion(+)

diff --git a/R/indexing.R b/R/indexing.R
index a34cb99..dad407f 100644
--- a/R/indexing.R
+++ b/R/indexing.R
@@ -85,6 +85,7 @@ find_indices_subform <- function(sub, data) {
     if(exists(index, data)) {
       # coerce to factor with common levels
       levels_i <- get(index, data)
+      index_i <- factor(levels_i, levels = levels_i)
       indices_i <- lapply(indices_i, factor, levels = levels_i)
       # replace in data, so have factors with correct levels
       for(j in seq_along(indices_i)) {
-- 
2.43.0


From 97f784da8c5b437e6e38f933b5bafa68285ac314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:03 +0000
Subject: [PATCH 20/45] fix: reject missing values in formulas with no random
 effects, as in those with

---
 R/model_frames.R | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/R/model_frames.R b/R/model_frames.R
index c1204c5..1efe858 100644
--- a/R/model_frames.R
+++ b/R/model_frames.R
@@ -38,26 +38,27 @@ parse_formula <- function(formula, data, family, weights, off,
   } else {
     if(is.null(off) && is.null(weights)) {
       fr <- glm(formula, data = data_vars, family = family,
-                method = "model.frame")
+                method = "model.frame", na.action = na.fail)
     } else {
       if(is.null(weights)) {
         data_vars_off <- data_vars
         data_vars_off$off <- off
         fr <- glm(formula, data = data_vars_off, family = family,
-                  method = "model.frame", offset = off)
+                  method = "model.frame", na.action = na.fail,
+                  offset = off)
       } else {
         if(is.null(off)) {
           data_vars_weights <- data_vars
           data_vars_weights$weights <- weights
           fr <- glm(formula, data = data_vars_weights,
-                    family = family, method = "model.frame",
+                    family = family, method = "model.frame", na.action = na.fail,
                     weights = weights)
         } else {
           data_vars_off_weights <- data_vars
           data_vars_off_weights$off <- off
           data_vars_off_weights$weights <- weights
           fr <- glm(formula, data = data_vars_off_weights,
-                    family = family, method = "model.frame",
+                    family = family, method = "model.frame", na.action = na.fail,
                     offset = off, weights = weights)
         }
 
@@ -82,7 +83,7 @@ parse_subformula <- function(formula, data, lme4_control) {
   } else {
 
     fr <- lm(formula, data = data_vars, family = family,
-             method = "model.frame")
+             method = "model.frame", na.action = na.fail)
     X <- model.matrix(formula, data = fr)
     modfr <- list(X = X)
   }
-- 
2.43.0


From 49f1087dcaee5c08fa493cf653acfb54245c1237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:32 +0000
Subject: [PATCH 21/45] fix: derivatives of the logistic link do not overflow

---
 src/LogitLink.cpp | 37 ++++++++++++++++++++++++-------------
 1 file changed, 24 insertions(+), 13 deletions(-)

diff --git a/src/LogitLink.cpp b/src/LogitLink.cpp
index a82d8c5..eb97408 100644
--- a/src/LogitLink.cpp
+++ b/src/LogitLink.cpp
@@ -4,37 +4,48 @@ LogitLink::LogitLink()
 {
 }
 
+// All of the derivatives are found in terms of a = exp(-|linearPredictor|),
+// which does not overflow, using the symmetry of the logistic distribution
+
+static Eigen::ArrayXd findA(const Eigen::ArrayXd& linearPredictor)
+{
+  return exp(-abs(linearPredictor));
+}
+
+// 1 where the linear predictor is negative, -1 elsewhere
+static Eigen::ArrayXd findSign(const Eigen::ArrayXd& linearPredictor)
+{
+  return 2. * (linearPredictor < 0.).cast<double>() - 1.;
+}
+
 Eigen::ArrayXd LogitLink::computeMean(const Eigen::ArrayXd& linearPredictor) const
 {
-  return exp(linearPredictor) / (1 + exp(linearPredictor)); 
+  return 1. / (1. + exp(-linearPredictor));
 }
 
 Eigen::ArrayXd LogitLink::computeMeanDerivative(const Eigen::ArrayXd& linearPredictor) const
 {
-  return exp(linearPredictor) / pow(1. + exp(linearPredictor), 2);
+  const Eigen::ArrayXd a = findA(linearPredictor);
+  return a / pow(1. + a, 2);
 }
 
 Eigen::ArrayXd LogitLink::computeMeanSecondDerivative(const Eigen::ArrayXd& linearPredictor) const
 {
-  return exp(linearPredictor) * (1 - exp(linearPredictor)) / pow(1. + exp(linearPredictor), 3);
+  const Eigen::ArrayXd a = findA(linearPredictor);
+  return findSign(linearPredictor) * a * (1. - a) / pow(1. + a, 3);
 }
 
 Eigen::ArrayXd LogitLink::computeMeanThirdDerivative(const Eigen::ArrayXd& linearPredictor) const
 {
- 
-  auto numerator = exp(linearPredictor) *
-    (-4 * exp(linearPredictor) + exp(2 * linearPredictor) + 1.);
-  auto denominator = pow(1. + exp(linearPredictor), 4);
-  return numerator / denominator;
+  const Eigen::ArrayXd a = findA(linearPredictor);
+  return a * (1. - 4. * a + pow(a, 2)) / pow(1. + a, 4);
 }
 
 Eigen::ArrayXd LogitLink::computeMeanFourthDerivative(const Eigen::ArrayXd& linearPredictor) const
 {
-  auto numerator = - exp(linearPredictor) *
-    (11 * exp(linearPredictor) - 11 * exp(2*linearPredictor)
-     + exp(3 * linearPredictor) - 1.);
-  auto denominator = pow(1. + exp(linearPredictor), 5);
-  return numerator / denominator;
+  const Eigen::ArrayXd a = findA(linearPredictor);
+  return findSign(linearPredictor) * a
+    * (1. - 11. * a + 11. * pow(a, 2) - pow(a, 3)) / pow(1. + a, 5);
 }
 
 std::string LogitLink::getName() const
-- 
2.43.0


From e5ba3395b7ce74142c6e2d09a9d20cf3273d2606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:21 +0000
Subject: [PATCH 22/45] fix: check the number of substituted variables in each
 Sub(), and skip unused subformulas

---
 R/subformula.R | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/R/subformula.R b/R/subformula.R
index 00413ac..2a2da0c 100644
--- a/R/subformula.R
+++ b/R/subformula.R
@@ -108,13 +108,15 @@ match_subform_subexpr <- function(subforms, subexprs, data) {
   which_subvars <- lapply(subexprs, find_vars, vars = subvars)
   # check how many subvars involved in each subexpr
   n_subvars <- vapply(which_subvars, length, 1L)
-  if(any(n_subvars) > 1L) {
+  if(any(n_subvars > 1L)) {
     stop("Each Sub(.) should only involve a single substituted variable",
-      .call = FALSE)
-  } else if (any(n_subvars) == 0L) {
-    stop("Each Sub(.) should involve a substituted variable", .call = FALSE)
+      call. = FALSE)
+  } else if (any(n_subvars == 0L)) {
+    stop("Each Sub(.) should involve a substituted variable", call. = FALSE)
   }
-  lapply(subforms, add_subexpr, subexprs = subexprs, which_subvars = which_subvars)
+  subs <- lapply(subforms, add_subexpr, subexprs = subexprs, which_subvars = which_subvars)
+  # drop any subformula which is not used (with a warning from add_subexpr)
+  subs[lengths(subs) > 0L]
 }
 
 
-- 
2.43.0


From 617abd413c5763f0e114c58f3fee56491fe47e4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:06 +0000
Subject: [PATCH 23/45] fix: data may be an environment, as documented

---
 R/subformula.R | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/R/subformula.R b/R/subformula.R
index 2a2da0c..a958c79 100644
--- a/R/subformula.R
+++ b/R/subformula.R
@@ -172,6 +172,8 @@ find_modfr_glmm <- function (formula, subformula = NULL, data = NULL,
   } else {
     subforms <- list(subformula)
   }
+  if(is.environment(data))
+    data <- as.list(data, all.names = TRUE)
   formula_split <- split_formula(formula)
   form_no_sub <- formula_split$form_no_sub
   subexprs <- formula_split$subexprs
-- 
2.43.0


From cf3888f19b1c70642b6336cdcaf8bea323c4088c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:31 +0000
Subject: [PATCH 24/45] fix: importance weights are scaled by the largest, so
 cannot overflow

---
 R/IS.R | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/R/IS.R b/R/IS.R
index 85897c7..5ff37fb 100644
--- a/R/IS.R
+++ b/R/IS.R
@@ -82,7 +82,7 @@ find_lfun_IS <- function(modfr, devfun_laplace, nIS) {
     normal_approx <- compute_normal_approx(pars, devfun_laplace)
     log_integrand <- find_log_integrand(pars, modfr)
     log_weights <- find_log_weights(z_poss, log_integrand, normal_approx)
-    b <- mean(log_weights)
+    b <- max(log_weights)
     log(mean(exp(log_weights - b))) + b
   }
 
-- 
2.43.0


From 79cc75d51524137226156825afbf5d58ec3c60b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:15 +0000
Subject: [PATCH 25/45] fix: every likelihood approximation checks the number
 of parameters

---
 R/loglikelihood.R | 32 ++++++++++++++++++--------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/R/loglikelihood.R b/R/loglikelihood.R
index 3fe2b4d..b5bcbfe 100644
--- a/R/loglikelihood.R
+++ b/R/loglikelihood.R
@@ -19,15 +19,25 @@ find_devfun_laplace_1 <- function(modfr, lme4_control) {
 
 find_lfun_glmm_internal <- function(modfr, method, control, devfun_laplace_1)
 {
-  switch(method,
-         Laplace = find_lfun_Laplace(modfr, devfun_laplace_1, order = control$order),
-         AGQ = find_lfun_AGQ(modfr, devfun_laplace_1, nAGQ = control$nAGQ),
-         SR = find_lfun_SR(modfr, devfun_laplace_1,
-                           nSL = control$nSL,
-                           nAGQ = control$nAGQ),
-         IS = find_lfun_IS(modfr, devfun_laplace_1, nIS = control$nIS),
-         stop(cat("method", method, "not available"))
+  lfun <- switch(method,
+                 Laplace = find_lfun_Laplace(modfr, devfun_laplace_1,
+                                             order = control$order),
+                 AGQ = find_lfun_AGQ(modfr, devfun_laplace_1, nAGQ = control$nAGQ),
+                 SR = find_lfun_SR(modfr, devfun_laplace_1,
+                                   nSL = control$nSL,
+                                   nAGQ = control$nAGQ),
+                 IS = find_lfun_IS(modfr, devfun_laplace_1, nIS = control$nIS),
+                 stop(cat("method", method, "not available"))
   )
+
+  n_pars <- length(modfr$reTrms$theta) + ncol(modfr$X)
+  function(pars) {
+    if(length(pars) != n_pars) {
+      stop("cannot compute loglikelihood for parameter of length ",
+           length(pars), " != ", n_pars, call. = FALSE)
+    }
+    lfun(pars)
+  }
 }
 
 find_lfun_AGQ <- function(modfr, devfun_laplace_1, nAGQ) {
@@ -38,7 +48,6 @@ find_lfun_AGQ <- function(modfr, devfun_laplace_1, nAGQ) {
 find_lfun_SR <- function(modfr, devfun_lme4, nSL, nAGQ) {
   check_modfr_SR(modfr)
 
-  n_fixed <- ncol(modfr$X)
   n_random <- length(modfr$reTrms$theta)
   has_offset <- length(model.offset(modfr$fr)) > 0
 
@@ -59,11 +68,6 @@ find_lfun_SR <- function(modfr, devfun_lme4, nSL, nAGQ) {
   }
 
   lfun <- function(pars) {
-    if(length(pars) != (n_fixed + n_random)) {
-      stop("cannot compute loglikelihood for parameter of length ",
-           length(pars), " != ", n_fixed + n_random,
-           call. = FALSE)
-    }
     calibration_pars$theta <- pars[1:n_random]
     beta <- pars[-(1:n_random)]
     calibration_pars$beta <- if(has_offset) c(beta, 1) else beta
-- 
2.43.0


From 3c8e4dda37e610d11bd707ae9ee483321cd11599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:05 +0000
Subject: [PATCH 26/45] fix: reject control values which are not suitable whole
 numbers

---
 R/control.R | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/R/control.R b/R/control.R
index 7446f46..7d100a4 100644
--- a/R/control.R
+++ b/R/control.R
@@ -30,6 +30,14 @@ set_lme4_control <- function(check.nobs.vs.rankZ = "ignore",
                      ...)
 }
 
+# check that one of the elements of control is a single whole number
+check_control_whole <- function(x, name, lower) {
+  if(!(is.numeric(x) && length(x) == 1L && is.finite(x) &&
+         x == round(x) && x >= lower)) {
+    stop(name, " should be a whole number, at least ", lower, call. = FALSE)
+  }
+}
+
 # code modified from use of control in optim
 find_control_with_defaults <- function(control, method)
 {
@@ -65,6 +73,11 @@ find_control_with_defaults <- function(control, method)
             paste(names_not_needed, collapse = ", "), call. = FALSE)
 
   con[names(control)] <- control
+  switch(method,
+         "Laplace" = check_control_whole(con$order, "order", 1),
+         "AGQ" = check_control_whole(con$nAGQ, "nAGQ", 1),
+         "SR" = check_control_whole(con$nSL, "nSL", 0),
+         "IS" = check_control_whole(con$nIS, "nIS", 1))
   if(method == "SR") {
     con$nAGQ <- 2^(con$nSL + 1) - 1
   }
-- 
2.43.0


From b9f9d0653e586ba5a2ee3568008be1d592e679f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:05 +0000
Subject: [PATCH 27/45] fix: evaluating a likelihood leaves the model frame as
 it was

---
 R/loglikelihood.R | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/R/loglikelihood.R b/R/loglikelihood.R
index b5bcbfe..212c195 100644
--- a/R/loglikelihood.R
+++ b/R/loglikelihood.R
@@ -11,6 +11,8 @@ find_lfun_glmm <- function(modfr, method, control = NULL,
 }
 
 find_devfun_laplace_1 <- function(modfr, lme4_control) {
+  # lme4 changes parts of reTrms in place: make sure that modfr stays the same
+  modfr$reTrms <- unserialize(serialize(modfr$reTrms, NULL))
   devfun_lme4 <- lme4::mkGlmerDevfun(fr = modfr$fr, X = modfr$X,
                                      reTrms = modfr$reTrms, family = modfr$family,
                                      control = lme4_control)
-- 
2.43.0


From 125f32d6da1a30ce78deea3910936c4bd4185119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:22 +0000
Subject: [PATCH 28/45] fix: accurate quadrature weights at every sparse grid
 level

---
 inst/include/QuadratureRule.h |  2 ++
 src/QuadratureRule.cpp        | 29 +++++++++++++++++++++++------
 2 files changed, 25 insertions(+), 6 deletions(-)

diff --git a/inst/include/QuadratureRule.h b/inst/include/QuadratureRule.h
index 58820c3..2e766b0 100644
--- a/inst/include/QuadratureRule.h
+++ b/inst/include/QuadratureRule.h
@@ -12,6 +12,7 @@ class QuadratureRule
   QuadratureRule(int);
 
   Eigen::ArrayXd getNodes() const;
+  // weights for f, where f includes the weight function exp(-x^2)
   Eigen::ArrayXd getWeights() const;
 
  private:
@@ -20,6 +21,7 @@ class QuadratureRule
 
   void initialize(int);
   Eigen::MatrixXd findHermiteJacobi(int);
+  double findWeight(double, int);
 };
 
 double integrate1D(std::function<double(double)>, 
diff --git a/src/QuadratureRule.cpp b/src/QuadratureRule.cpp
index 47b9ba6..8da6998 100644
--- a/src/QuadratureRule.cpp
+++ b/src/QuadratureRule.cpp
@@ -21,13 +21,30 @@ Eigen::ArrayXd QuadratureRule::getWeights() const
 
 void QuadratureRule::initialize(int n)
 {
-  static const double sqrtPi = 1.772453851;
   Eigen::MatrixXd hermiteJacobi = findHermiteJacobi(n);
   Eigen::SelfAdjointEigenSolver<Eigen::MatrixXd> es(hermiteJacobi);
   nodes_ = es.eigenvalues().array();
 
-  Eigen::ArrayXd firstRow = es.eigenvectors().row(0).array();
-  weights_ = sqrtPi * firstRow * firstRow;
+  for(int i = 0; i < n; ++i)
+    weights_(i) = findWeight(nodes_(i), n);
+}
+
+// Find exp(x^2) times the Gauss-Hermite weight of the node x, as one over the
+// sum of squares of the orthonormal Hermite functions at x. The weight itself
+// may be tiny, so (unlike this) would not be accurate once multiplied by exp(x^2)
+double QuadratureRule::findWeight(double x, int n)
+{
+  static const double piToMinusQuarter = 0.751125544464942927;
+  double previous = 0;
+  double current = piToMinusQuarter * exp(-x * x / 2);
+  double sumSquares = current * current;
+  for(int k = 1; k < n; ++k) {
+    double next = sqrt(2.0 / k) * x * current - sqrt((k - 1.0) / k) * previous;
+    previous = current;
+    current = next;
+    sumSquares += current * current;
+  }
+  return 1 / sumSquares;
 }
 
 Eigen::MatrixXd QuadratureRule::findHermiteJacobi(int n)
@@ -54,7 +71,7 @@ double integrate1D(std::function<double(double)> f,
   for(auto i = 0; i < nodes.size(); ++i) {
     double node = nodes(i);
     double transformedNode = scale * node + location;
-    ret += weights(i) * f(transformedNode) * exp(pow(node, 2));
+    ret += weights(i) * f(transformedNode);
   }
   return scale * ret;
 }
@@ -73,7 +90,7 @@ Eigen::ArrayXd integrate1DVector(std::function<Eigen::ArrayXd(double)> f,
   for(auto i = 0; i < nodes.size(); ++i) {
     double node = nodes(i);
     double transformedNode = scale * node + location;
-    ret += weights(i) * f(transformedNode) * exp(pow(node, 2));
+    ret += weights(i) * f(transformedNode);
   }
   return scale * ret;
 }
@@ -92,7 +109,7 @@ Eigen::ArrayXXd integrate1DMatrix(std::function<Eigen::ArrayXXd(double)> f,
   for(auto i = 0; i < nodes.size(); ++i) {
     double node = nodes(i);
     double transformedNode = scale * node + location;
-    ret += weights(i) * f(transformedNode) * exp(pow(node, 2));
+    ret += weights(i) * f(transformedNode);
   }
   return scale * ret;
 }
-- 
2.43.0


From 268be98ed428494e8507fd774bad527a97acc725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:07 +0000
Subject: [PATCH 29/45] fix: evaluating a likelihood leaves the offset argument
 as it was

---
 R/loglikelihood.R | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/R/loglikelihood.R b/R/loglikelihood.R
index 212c195..f8ad918 100644
--- a/R/loglikelihood.R
+++ b/R/loglikelihood.R
@@ -11,8 +11,11 @@ find_lfun_glmm <- function(modfr, method, control = NULL,
 }
 
 find_devfun_laplace_1 <- function(modfr, lme4_control) {
-  # lme4 changes parts of reTrms in place: make sure that modfr stays the same
+  # lme4 changes parts of reTrms, and the offset, in place: make sure that
+  # modfr (and the offset the user supplied) stay the same
   modfr$reTrms <- unserialize(serialize(modfr$reTrms, NULL))
+  if(length(modfr$fr[["(offset)"]]) > 0L)
+    modfr$fr[["(offset)"]] <- modfr$fr[["(offset)"]] + 0
   devfun_lme4 <- lme4::mkGlmerDevfun(fr = modfr$fr, X = modfr$X,
                                      reTrms = modfr$reTrms, family = modfr$family,
                                      control = lme4_control)
-- 
2.43.0


From a731eac05a0bd13ac502b1cf19a58748ad42f30d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:16 +0000
Subject: [PATCH 30/45] fix: weights and offset are not confused with variables
 of those names

---
 R/model_frames.R | 65 +++++++++++-------------------------------------
 1 file changed, 15 insertions(+), 50 deletions(-)

diff --git a/R/model_frames.R b/R/model_frames.R
index 1efe858..2c90417 100644
--- a/R/model_frames.R
+++ b/R/model_frames.R
@@ -11,60 +11,25 @@ parse_formula <- function(formula, data, family, weights, off,
   if(has_re(formula)) {
     if (family$family == "gaussian")
       stop("glmmsr can't yet handle family = gaussian", call. = FALSE)
-    # glFormula looks for a variable called offset in this frame
+    # pass on the values of weights and offset (NULL if there are none), so
+    # that they are not confused with variables in data. glFormula looks for
+    # these names in this frame, and assigns them in the environment of formula
     offset <- off
-    if(is.null(off) && is.null(weights)) {
-      modfr <- lme4::glFormula(formula, data = data_vars, family = family,
-                               na.action = na.fail, control = lme4_control)
-    } else {
-      if(is.null(weights)) {
-        modfr <- lme4::glFormula(formula, data = data_vars, family = family,
-                                 na.action = na.fail, offset = offset,
-                                 control = lme4_control)
-      } else {
-        if(is.null(off)) {
-          modfr <- lme4::glFormula(formula, data = data_vars, family = family,
-                                   na.action = na.fail, weights = weights,
-                                   control = lme4_control)
-        } else {
-          modfr <- lme4::glFormula(formula, data = data_vars, family = family,
-                                   na.action = na.fail, weights = weights,
-                                   offset = offset, control = lme4_control)
-        }
-      }
-    }
+    formula_env <- formula
+    environment(formula_env) <- new.env(parent = environment(formula))
+    modfr <- do.call(lme4::glFormula,
+                     c(list(formula_env, data = data_vars, family = family,
+                            na.action = na.fail, control = lme4_control),
+                       list(weights = weights)[!is.null(weights)],
+                       list(offset = offset)[!is.null(offset)]))
+    modfr$formula <- formula
     if(is.null(modfr$family))
       modfr$family <- family
   } else {
-    if(is.null(off) && is.null(weights)) {
-      fr <- glm(formula, data = data_vars, family = family,
-                method = "model.frame", na.action = na.fail)
-    } else {
-      if(is.null(weights)) {
-        data_vars_off <- data_vars
-        data_vars_off$off <- off
-        fr <- glm(formula, data = data_vars_off, family = family,
-                  method = "model.frame", na.action = na.fail,
-                  offset = off)
-      } else {
-        if(is.null(off)) {
-          data_vars_weights <- data_vars
-          data_vars_weights$weights <- weights
-          fr <- glm(formula, data = data_vars_weights,
-                    family = family, method = "model.frame", na.action = na.fail,
-                    weights = weights)
-        } else {
-          data_vars_off_weights <- data_vars
-          data_vars_off_weights$off <- off
-          data_vars_off_weights$weights <- weights
-          fr <- glm(formula, data = data_vars_off_weights,
-                    family = family, method = "model.frame", na.action = na.fail,
-                    offset = off, weights = weights)
-        }
-
-      }
-
-    }
+    fr <- do.call(glm, c(list(formula, data = data_vars, family = family,
+                              method = "model.frame", na.action = na.fail),
+                         list(weights = weights)[!is.null(weights)],
+                         list(offset = off)[!is.null(off)]))
     X <- model.matrix(formula, data = fr)
     modfr <- list(fr = fr, X = X, family = family, formula = formula)
   }
-- 
2.43.0


From 05fd8cd99a991fcca3d801ee52a1085b0dcc131d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:00 +0000
Subject: [PATCH 31/45] fix: allow unary plus in substitution expressions

---
 R/model_frames.R | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/R/model_frames.R b/R/model_frames.R
index 2c90417..49e3abe 100644
--- a/R/model_frames.R
+++ b/R/model_frames.R
@@ -118,6 +118,8 @@ is_modfr <- function(x) {
 
 # add two model frames
 `+fr` <- function(modfr1, modfr2) {
+  if(missing(modfr2))
+    return(`*fr`(modfr1, 1L))
   if(!is_modfr(modfr1) || !is_modfr(modfr2)) {
     stop("Invalid use of `+fr`: both arguments should be model frames",
          call. = FALSE)
-- 
2.43.0


From be51fd229f5040f50f5ee4f13b3094b4e78e3e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:47 +0000
Subject: [PATCH 32/45] fix: an offset in a subformula is part of the offset of
 the model

---
 R/model_frames.R | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/R/model_frames.R b/R/model_frames.R
index 49e3abe..dc4a429 100644
--- a/R/model_frames.R
+++ b/R/model_frames.R
@@ -44,6 +44,7 @@ parse_subformula <- function(formula, data, lme4_control) {
   if(has_re(formula)) {
     modfr_tot <- lme4::lFormula(formula, data = data_vars,
                                 control = lme4_control, na.action = na.fail)
+    fr <- modfr_tot$fr
     modfr <- list(X = modfr_tot$X, reTrms = modfr_tot$reTrms)
   } else {
 
@@ -52,6 +53,7 @@ parse_subformula <- function(formula, data, lme4_control) {
     X <- model.matrix(formula, data = fr)
     modfr <- list(X = X)
   }
+  modfr$offset <- model.offset(fr)
   modfr
 }
 
@@ -69,6 +71,7 @@ is_modfr <- function(x) {
   out <- modfr
   i <- as.numeric(i)
   out$X <- modfr$X[i, , drop = FALSE]
+  out$offset <- modfr$offset[i]
   if(has_reTrms(modfr)) {
     reTrms <- modfr$reTrms
     out$reTrms$Zt <- reTrms$Zt[, i, drop = FALSE]
@@ -95,6 +98,8 @@ is_modfr <- function(x) {
   }
   out <- modfr
   out$X <- modfr$X * as.numeric(a)
+  if(!is.null(modfr$offset))
+    out$offset <- modfr$offset * as.numeric(a)
   if(has_reTrms(modfr)) {
     # each row of X is a column of Zt
     scale_cols <- function(Zt) {
@@ -135,6 +140,8 @@ is_modfr <- function(x) {
          call. = FALSE)
   }
   out$X <- modfr1$X + modfr2$X
+  if(!is.null(modfr1$offset))
+    out$offset <- modfr1$offset + modfr2$offset
   if(has_reTrms(modfr1)) {
     if(any(dim(modfr1$reTrms$Zt) != dim(modfr2$reTrms$Zt))) {
       stop("Invalid use of `+fr`: Dimension mismatch in model matrices",
@@ -174,6 +181,7 @@ concatenate_Matrix <- function(M1, M2) {
 concatenate_frames <- function(modfr1, modfr2) {
   out <- modfr1
   out$X <- cbind(modfr1$X, modfr2$X)
+  out$offset <- add_offsets(modfr1$offset, modfr2$offset)
   if(has_reTrms(modfr1)) {
     if(has_reTrms(modfr2)) {
       reTrms1 <- modfr1$reTrms
@@ -202,6 +210,15 @@ concatenate_frames <- function(modfr1, modfr2) {
 
 attach_subframes <- function(modfr, subframes) {
   subframes_combined <- Reduce(concatenate_frames, subframes)
-  concatenate_frames(modfr, subframes_combined)
+  out <- concatenate_frames(modfr, subframes_combined)
+  # any offset in a subformula is part of the offset of the model
+  out$fr[["(offset)"]] <- add_offsets(out$fr[["(offset)"]], out$offset)
+  out$offset <- NULL
+  out
+}
+
+# add two offsets, either of which may be NULL
+add_offsets <- function(offset1, offset2) {
+  if(is.null(offset1) || is.null(offset2)) c(offset1, offset2) else offset1 + offset2
 }
 
-- 
2.43.0


From 2971e7a3a92452242f2fa3ba02a4f0cf62bc6d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:14 +0000
Subject: [PATCH 33/45] fix: a numeric index of a substituted variable may
 leave some items out

---
 R/indexing.R | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/R/indexing.R b/R/indexing.R
index dad407f..5b90975 100644
--- a/R/indexing.R
+++ b/R/indexing.R
@@ -121,7 +121,8 @@ find_index_i <- function(index, i, index_i, subform, data) {
   if(length(x_vars) > 0) {
     levels_i_max <- max(vapply(x_vars, find_dim_in_dir, 1L, i = i))
   } else {
-    levels_i_max <- length(index_i)
+    # a numeric index may leave some items out
+    levels_i_max <- if(is.factor(index_i)) length(index_i) else max(index_i)
   }
   if(is.factor(index_i)) {
     if(length(index_i) != levels_i_max) {
-- 
2.43.0


From efa778e1a966d62481eb4475ebe1c9bda371adaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:02 +0000
Subject: [PATCH 34/45] fix: refuse multiple indices which are out of range, or
 of different lengths

---
 R/indexing.R | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/R/indexing.R b/R/indexing.R
index 5b90975..f895eed 100644
--- a/R/indexing.R
+++ b/R/indexing.R
@@ -183,7 +183,17 @@ multi_to_flat <- function(multi_id, indices) {
 }
 
 flatten_vars <- function(var_names, indices, data) {
-  multi_id <- Reduce(rbind, lapply(data[var_names], as.numeric))
+  ids <- lapply(data[var_names], as.numeric)
+  if(length(unique(lengths(ids))) > 1L) {
+    stop("Indexing variables ", paste(var_names, collapse = ", "),
+         " have different lengths", call. = FALSE)
+  }
+  multi_id <- Reduce(rbind, ids)
+  # an index out of range would give the position of some other item
+  if(!isTRUE(all(multi_id >= 1 & multi_id < lengths(indices) + 1))) {
+    stop("Indexing variables ", paste(var_names, collapse = ", "),
+         " are out of range", call. = FALSE)
+  }
   multi_to_flat(multi_id, indices)
 }
 
-- 
2.43.0


From c045e6d56e93c83272cf797e4dee947c094de60b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:25 +0000
Subject: [PATCH 35/45] fix: a subformula with several indices may have fixed
 effects only

---
 R/indexing.R | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/R/indexing.R b/R/indexing.R
index f895eed..e6b7e94 100644
--- a/R/indexing.R
+++ b/R/indexing.R
@@ -170,7 +170,10 @@ flatten_formula <- function(formula, indices){
     # and combine with cbind
     # for now, insist all indexing is done with indices in indices
 
+    # (keeping the class and environment of the formula)
+    formula_attributes <- attributes(formula_flat)
     formula_flat <- matrix_indexing(formula_flat, indices)
+    attributes(formula_flat) <- formula_attributes
   }
   formula_flat
 }
-- 
2.43.0


From 98cac2374915decfd8a302984db614f8ed6d80ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:53 +0000
Subject: [PATCH 36/45] fix: refuse too difficult an approximation before
 preparing for it

---
 R/loglikelihood.R | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/R/loglikelihood.R b/R/loglikelihood.R
index f8ad918..9889ed6 100644
--- a/R/loglikelihood.R
+++ b/R/loglikelihood.R
@@ -57,11 +57,6 @@ find_lfun_SR <- function(modfr, devfun_lme4, nSL, nAGQ) {
   has_offset <- length(model.offset(modfr$fr)) > 0
 
   factorization_terms <- find_factorization_terms(modfr)
-  calibration_pars <- calibration_parameters()
-  calibration_pars$n_quadrature_points <- nAGQ
-  calibration_pars$n_sparse_levels <- nSL
-  calibration_pars$family <- modfr$family$family
-  calibration_pars$link <- modfr$family$link
   beliefs <- cluster_graph(factorization_terms)
 
   complexity_limit <- 5e5
@@ -72,6 +67,12 @@ find_lfun_SR <- function(modfr, devfun_lme4, nSL, nAGQ) {
          call. = FALSE)
   }
 
+  calibration_pars <- calibration_parameters()
+  calibration_pars$n_quadrature_points <- nAGQ
+  calibration_pars$n_sparse_levels <- nSL
+  calibration_pars$family <- modfr$family$family
+  calibration_pars$link <- modfr$family$link
+
   lfun <- function(pars) {
     calibration_pars$theta <- pars[1:n_random]
     beta <- pars[-(1:n_random)]
-- 
2.43.0


From a331daf1b0c643de6e9d8f86630a60ab04c693fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:23 +0000
Subject: [PATCH 37/45] fix: refuse the gaussian family for formulas with Sub()
 terms, as for those without

---
 R/loglikelihood.R | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/R/loglikelihood.R b/R/loglikelihood.R
index 9889ed6..905478b 100644
--- a/R/loglikelihood.R
+++ b/R/loglikelihood.R
@@ -11,6 +11,8 @@ find_lfun_glmm <- function(modfr, method, control = NULL,
 }
 
 find_devfun_laplace_1 <- function(modfr, lme4_control) {
+  if(modfr$family$family == "gaussian")
+    stop("glmmsr can't yet handle family = gaussian", call. = FALSE)
   # lme4 changes parts of reTrms, and the offset, in place: make sure that
   # modfr (and the offset the user supplied) stay the same
   modfr$reTrms <- unserialize(serialize(modfr$reTrms, NULL))
-- 
2.43.0


From 9e1cb97c4da4aee14e14d6e68ef8f015cbf2b797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:31 +0000
Subject: [PATCH 38/45] fix: a term whose log density is exactly zero is not
 improper in sequential reduction

---
 src/MixedContinuousBelief.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/MixedContinuousBelief.cpp b/src/MixedContinuousBelief.cpp
index 211b700..b0f89aa 100644
--- a/src/MixedContinuousBelief.cpp
+++ b/src/MixedContinuousBelief.cpp
@@ -232,13 +232,13 @@ bool MixedContinuousBelief::isProper(const Parameters& parameters)
   auto normalMean = normalApprox_.getNormal().getMean();
   if(beliefs_.size() > 0) {
     auto evalAtMean = evaluate(normalMean, parameters);
-    if(!std::isnormal(evalAtMean)) {
+    if(!std::isfinite(evalAtMean)) {
       proper = false;
     }
   }
   auto evalNormalAtMean = normalApprox_.evaluate(normalMean,
 						 parameters);
-  if(!std::isnormal(evalNormalAtMean)) {
+  if(!std::isfinite(evalNormalAtMean)) {
     proper = false;
   }
   
-- 
2.43.0


From 0ddd4907a23ccad29ea521a4514bdbe8d994ad83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:08 +0000
Subject: [PATCH 39/45] fix: sequential reduction failed (improper cluster
 belief) when the determinant of the precision of a cluster overflowed

---
 src/MultiNormal.cpp | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/MultiNormal.cpp b/src/MultiNormal.cpp
index 9f721c2..111455c 100644
--- a/src/MultiNormal.cpp
+++ b/src/MultiNormal.cpp
@@ -1,4 +1,6 @@
 #include <math.h>
+#include <cmath>
+#include <limits>
 
 #include "subsetEigen.h"
 
@@ -149,7 +151,21 @@ MultiNormal MultiNormal::integrate(int item) const
 void MultiNormal::initializeNormalizer()
 {
   static const double logSqrtTwoPi = 0.91893853320467266954;
-  normalizer_ = -dimension() * logSqrtTwoPi + 0.5 * log(precision_.determinant());
+  // the determinant itself may overflow, so add the logarithms of its factors
+  double logDeterminant = 0;
+  if(precision_.rows() > 0) {
+    auto lu = precision_.partialPivLu();
+    double sign = lu.permutationP().determinant();
+    for(auto i = 0; i < precision_.rows(); ++i) {
+      double factor = lu.matrixLU()(i, i);
+      logDeterminant += log(std::abs(factor));
+      if(factor < 0)
+	sign = -sign;
+    }
+    if(sign < 0)
+      logDeterminant = std::numeric_limits<double>::quiet_NaN();
+  }
+  normalizer_ = -dimension() * logSqrtTwoPi + 0.5 * logDeterminant;
 }
 
 void MultiNormal::multiplySubsetInternal
-- 
2.43.0


From b17d4e03512f58fd5b384d7a8b74be71f033a3ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:29 +0000
Subject: [PATCH 40/45] fix: an unused variable with the name of a substituted
 variable changed the number of items it was given

---
 R/indexing.R | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/R/indexing.R b/R/indexing.R
index e6b7e94..627a098 100644
--- a/R/indexing.R
+++ b/R/indexing.R
@@ -113,7 +113,9 @@ find_indices_subform <- function(sub, data) {
 
 
 find_index_i <- function(index, i, index_i, subform, data) {
-  vars <- find_vars_with_index(subform, i, index)
+  # variables on the right hand side: data may have another variable with the
+  # name of the substituted variable
+  vars <- find_vars_with_index(subform[[length(subform)]], i, index)
   in_data <- vapply(vars, exists, TRUE, where = data)
   vars <- vars[in_data]
   x_vars <- data[vars]
-- 
2.43.0


From 2dbd9f9fa02e2bda07a4f172ccbc5a7ec5231266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:35 +0000
Subject: [PATCH 41/45] fix: an index which is missing or not a whole number
 was accepted, and took some other item

---
 R/indexing.R     | 4 ++--
 R/model_frames.R | 2 ++
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/R/indexing.R b/R/indexing.R
index 627a098..d6b23f4 100644
--- a/R/indexing.R
+++ b/R/indexing.R
@@ -195,9 +195,9 @@ flatten_vars <- function(var_names, indices, data) {
   }
   multi_id <- Reduce(rbind, ids)
   # an index out of range would give the position of some other item
-  if(!isTRUE(all(multi_id >= 1 & multi_id < lengths(indices) + 1))) {
+  if(!isTRUE(all(multi_id == round(multi_id) & multi_id >= 1 & multi_id <= lengths(indices)))) {
     stop("Indexing variables ", paste(var_names, collapse = ", "),
-         " are out of range", call. = FALSE)
+         " are missing, not whole numbers, or out of range", call. = FALSE)
   }
   multi_to_flat(multi_id, indices)
 }
diff --git a/R/model_frames.R b/R/model_frames.R
index dc4a429..781f372 100644
--- a/R/model_frames.R
+++ b/R/model_frames.R
@@ -70,6 +70,8 @@ is_modfr <- function(x) {
 `[fr` <- function(modfr, i) {
   out <- modfr
   i <- as.numeric(i)
+  if(!isTRUE(all(i == round(i) & i >= 1 & i <= nrow(modfr$X))))
+    stop("Indexing variables are missing, not whole numbers, or out of range", call. = FALSE)
   out$X <- modfr$X[i, , drop = FALSE]
   out$offset <- modfr$offset[i]
   if(has_reTrms(modfr)) {
-- 
2.43.0


From 4c0bd34c200a49ea1ae22c1bfcd3e75635489ddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:18 +0000
Subject: [PATCH 42/45] fix: two subformulas for the same variable were both
 added to the model

---
 R/subformula.R | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/R/subformula.R b/R/subformula.R
index a958c79..b42cd19 100644
--- a/R/subformula.R
+++ b/R/subformula.R
@@ -103,6 +103,10 @@ add_subexpr <- function(subform, subexprs, which_subvars) {
 
 match_subform_subexpr <- function(subforms, subexprs, data) {
   subvars <- vapply(subforms, find_subvar, "test")
+  if(anyDuplicated(subvars)) {
+    stop("Should have only one subformula for each substituted variable",
+         call. = FALSE)
+  }
 
   # find the names of the subvars involved in each subexpr
   which_subvars <- lapply(subexprs, find_vars, vars = subvars)
-- 
2.43.0


From 8c5830152c8ac7d1bf72e4fd7e4e533dfbc9aa53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:18 +0000
Subject: [PATCH 43/45] fix: find_modfr_glmm accepted weights which are not
 integers

---
 R/subformula.R | 1 +
 1 file changed, 1 insertion(+)

diff --git a/R/subformula.R b/R/subformula.R
index b42cd19..ef8fb94 100644
--- a/R/subformula.R
+++ b/R/subformula.R
@@ -171,6 +171,7 @@ find_modfr_glmm <- function (formula, subformula = NULL, data = NULL,
                              family = gaussian, weights = NULL, offset = NULL,
                              lme4_control = set_lme4_control())
 {
+  check_weights(weights)
   if(is.list(subformula) || length(subformula) == 0L){
     subforms <- subformula
   } else {
-- 
2.43.0


From fe5ca91dc6f743191187513f2d94880b6ec9807d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:40 +0000
Subject: [PATCH 44/45] fix: a substituted variable without an index was
 accepted alongside the same variable with an index

---
 R/indexing.R | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/R/indexing.R b/R/indexing.R
index d6b23f4..6f781fc 100644
--- a/R/indexing.R
+++ b/R/indexing.R
@@ -1,9 +1,14 @@
 
 find_dim_sub <- function(x, var, d = NULL){
-  if(is.atomic(x) || is.name(x)) {
+  if(is.name(x) && identical(as.character(x), var)) {
+    # var without an index
+    stop(paste0("\'", var, "\' is indexed inconsistently"), call. = FALSE)
+  } else if(is.atomic(x) || is.name(x)) {
     d
   } else if (is.call(x)) {
+    args <- seq_along(x)[-1]
     if(identical(x[[1]], quote(`[`)) && identical(as.character(x[[2]]), var)) {
+      args <- args[-1]
       if(length(d) > 0L){
         if(d != (length(x) - 2)) {
           stop(paste0("\'", var, "\' is indexed inconsistently"), call. = FALSE)
@@ -12,7 +17,7 @@ find_dim_sub <- function(x, var, d = NULL){
         d <- length(x) - 2
       }
     }
-    for(i in seq_along(x)) {
+    for(i in args) {
       d <- find_dim_sub(x[[i]], var, d)
     }
   } else if(is.pairlist(x)) {
-- 
2.43.0


From 350ddcc2ea07c0e0eb7d547a661446e91f709360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:40 +0000
Subject: [PATCH 45/45] fix: quasi families were accepted in models with random
 effects only in a subformula

---
 R/loglikelihood.R | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/R/loglikelihood.R b/R/loglikelihood.R
index 905478b..55761af 100644
--- a/R/loglikelihood.R
+++ b/R/loglikelihood.R
@@ -13,6 +13,9 @@ find_lfun_glmm <- function(modfr, method, control = NULL,
 find_devfun_laplace_1 <- function(modfr, lme4_control) {
   if(modfr$family$family == "gaussian")
     stop("glmmsr can't yet handle family = gaussian", call. = FALSE)
+  # lme4 refuses these, but only sees the family if formula has random effects
+  if(grepl("^quasi", modfr$family$family))
+    stop("\"quasi\" families cannot be used in glmm", call. = FALSE)
   # lme4 changes parts of reTrms, and the offset, in place: make sure that
   # modfr (and the offset the user supplied) stay the same
   modfr$reTrms <- unserialize(serialize(modfr$reTrms, NULL))
-- 
2.43.0

