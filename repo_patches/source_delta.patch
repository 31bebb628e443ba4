From 46aaef0ef67139c41c20dccb561c4fb0cea7bfa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:56 +0000
Subject: [PATCH 01/35] fix: densityOperatorize (hence reduce of a lazy density
 operator) works for any arity

It was constructing the result with getDimension(), which exists for unary systems only.
---
 CPPQEDcore/quantumdata/DensityOperator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CPPQEDcore/quantumdata/DensityOperator.h b/CPPQEDcore/quantumdata/DensityOperator.h
index 1368404..52aec1f 100644
--- a/CPPQEDcore/quantumdata/DensityOperator.h
+++ b/CPPQEDcore/quantumdata/DensityOperator.h
@@ -239,7 +239,7 @@ template<int RANK>
 DensityOperator<RANK>
 densityOperatorize(const LazyDensityOperator<RANK>& matrix)
 {
-  DensityOperator<RANK> res(matrix.getDimension());
+  DensityOperator<RANK> res(matrix.getDimensions());
   
   typedef cppqedutils::MultiIndexIterator<RANK> Iterator;
   const Iterator etalon(matrix.getDimensions()-1,cppqedutils::mii::begin);
-- 
2.43.0


From c08e3b489883e26644bebf95040eb680dbf431aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:56 +0000
Subject: [PATCH 02/35] fix: trace of a StateVector as LazyDensityOperator is
 the squared norm

The thermal-emission rate uses the trace of (unnormalised) slices in composite systems,
where returning the norm gave wrong jump rates for pure states.
---
 CPPQEDcore/quantumdata/StateVector.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CPPQEDcore/quantumdata/StateVector.h b/CPPQEDcore/quantumdata/StateVector.h
index f637880..57640f3 100644
--- a/CPPQEDcore/quantumdata/StateVector.h
+++ b/CPPQEDcore/quantumdata/StateVector.h
@@ -191,7 +191,7 @@ public:
 private:
   const dcomp index(const Idx& i, const Idx& j) const override {return getArray()(i)*conj(getArray()(j));} ///< This function implements the LazyDensityOperator interface in a dyadic-product way.
   
-  double trace_v() const override {return norm();} ///< A straightforward implementation of a LazyDensityOperator virtual
+  double trace_v() const override {return cppqedutils::sqr(norm());} ///< A straightforward implementation of a LazyDensityOperator virtual
   
 };
 
-- 
2.43.0


From 67b59f5e10f7e51018772f4f7f1e4a7063e36bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:33:09 +0000
Subject: [PATCH 03/35] fix: direct product of two Sigma operators is the
 product of the two

---
 CPPQEDcore/quantumoperator/Sigma.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CPPQEDcore/quantumoperator/Sigma.h b/CPPQEDcore/quantumoperator/Sigma.h
index 02ba774..36825c8 100644
--- a/CPPQEDcore/quantumoperator/Sigma.h
+++ b/CPPQEDcore/quantumoperator/Sigma.h
@@ -131,7 +131,7 @@ template<int L1, int R1, int L2, int R2>
 const DirectProduct<L1,R1,Sigma<L2,R2>,true>
 operator*(const Sigma<L1,R1>&, const Sigma<L2,R2>& sigma)
 {
-  return DirectProduct<L1,R2,Sigma<L2,R2>,true>(sigma);
+  return DirectProduct<L1,R1,Sigma<L2,R2>,true>(sigma);
 }
 
 
-- 
2.43.0


From 44dbf5c57cb87a886e983cedd162326d76ae01b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:37:39 +0000
Subject: [PATCH 04/35] fix: direct product of a Tridiagonal with and one
 without frequencies keeps the frequencies

---
 CPPQEDcore/quantumoperator/Tridiagonal.tcc | 66 +++++++++++++++-------
 1 file changed, 46 insertions(+), 20 deletions(-)

diff --git a/CPPQEDcore/quantumoperator/Tridiagonal.tcc b/CPPQEDcore/quantumoperator/Tridiagonal.tcc
index bf70e3f..8ab208a 100644
--- a/CPPQEDcore/quantumoperator/Tridiagonal.tcc
+++ b/CPPQEDcore/quantumoperator/Tridiagonal.tcc
@@ -55,6 +55,50 @@ directDiagonals(const typename Tridiagonal<RANK1>::Diagonals& ds1,
 } // NEEDS_WORK this is now runtime, but (a smaller) part of it could be done compile-time. Ugh. Ouch.
 
 
+template<int RANK>
+int transposeIndex(int ind)
+{
+  int res=0;
+  // std::cout<<ind<<' ';
+  for (int k=RANK-1; k>=0; k--) {
+    int threeToK=int(floor(pow(3.,k)));
+    int ik=int(floor(ind/double(threeToK)));
+    res+=((3-ik)%3)*threeToK;
+    ind-=ik*threeToK;
+  }
+  // std::cout<<res<<std::endl;
+  return res;
+}
+
+
+/// The frequencies of diagonal `ind`, zeros if it (or its transpose) is present, but does not rotate
+template<int RANK>
+const typename Tridiagonal<RANK>::Diagonal
+freqsOrZeros(const Tridiagonal<RANK>& t, int ind)
+{
+  if (t.getFreqs()(ind).size()) return t.getFreqs()(ind);
+  const auto& d=t.get()(ind);
+  typename Tridiagonal<RANK>::Diagonal res((d.size() ? d : t.get()(transposeIndex<RANK>(ind))).shape());
+  res=0.;
+  return res;
+}
+
+
+template<int RANK1, int RANK2>
+const typename Tridiagonal<RANK1+RANK2>::Diagonals
+directFreqs(const Tridiagonal<RANK1>& t1, const Tridiagonal<RANK2>& t2)
+{
+  typename Tridiagonal<RANK1+RANK2>::Diagonals res;
+
+  for (int i=0; i<Tridiagonal<RANK1>::LENGTH; ++i) for (int j=0; j<Tridiagonal<RANK2>::LENGTH; ++j)
+    if (t1.getFreqs()(i).size() || t2.getFreqs()(j).size())
+      res(i*Tridiagonal<RANK2>::LENGTH+j).reference(blitzplusplus::doDirect<false,RANK1,RANK2>(freqsOrZeros(t1,i),freqsOrZeros(t2,j)));
+
+  return res;
+
+}
+
+
 } // details
 
 
@@ -64,7 +108,7 @@ Tridiagonal<RANK>::Tridiagonal(const Tridiagonal<RANK2>& t1, const Tridiagonal<R
     diagonals_(blitzplusplus::ShallowCopy(),details::directDiagonals<true,RANK2,RANK-RANK2>(t1.get(),t2.get())),
     differences_(blitzplusplus::concatenateTinies(t1.getDifferences(),t2.getDifferences())),
     tCurrent_(t1.getTime()),
-    freqs_(blitzplusplus::ShallowCopy(),details::directDiagonals<false,RANK2,RANK-RANK2>(t1.getFreqs(),t2.getFreqs()))
+    freqs_(blitzplusplus::ShallowCopy(),details::directFreqs(t1,t2))
 {
   if (t1.getTime()!=t2.getTime()) throw std::runtime_error("Tridiagonal time mismatch");
 }
@@ -84,28 +128,10 @@ Tridiagonal<RANK>::operator*=(dcomp dc)
 template<int RANK>
 const Tridiagonal<RANK> Tridiagonal<RANK>::hermitianConjugate() const
 {
-  struct helper {
-
-    static int transposeIndex(int ind)
-    {
-      int res=0;
-      // std::cout<<ind<<' ';
-      for (int k=RANK-1; k>=0; k--) {
-        int threeToK=int(floor(pow(3.,k)));
-        int ik=int(floor(ind/double(threeToK)));
-        res+=((3-ik)%3)*threeToK;
-        ind-=ik*threeToK;
-      }
-      // std::cout<<res<<std::endl;
-      return res;
-    }
-
-  };
-
   Tridiagonal res(*this,Diagonals(),differences_,tCurrent_,freqs_);
 
   for (int ind=0; ind<LENGTH; ind++)
-    res.diagonals_(helper::transposeIndex(ind)).reference(Diagonal(conj(diagonals_(ind))));
+    res.diagonals_(details::transposeIndex<RANK>(ind)).reference(Diagonal(conj(diagonals_(ind))));
   // Here a new copy of the conjugated diagonal gets created & referenced.
 
   // freqs_ at any moment stores the correct transposed values as well
-- 
2.43.0


From 88444905ea6984f2887acd42c0f35ecec186957e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:34 +0000
Subject: [PATCH 05/35] fix: FFT of a length that is not a power of two throws
 instead of aborting the program

---
 CPPQEDutils/FFT.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/CPPQEDutils/FFT.cc b/CPPQEDutils/FFT.cc
index bcea7aa..6d21b0d 100644
--- a/CPPQEDutils/FFT.cc
+++ b/CPPQEDutils/FFT.cc
@@ -13,6 +13,7 @@ namespace fft {
 
 void details::transform(double* data, size_t stride, size_t n, Direction sign)
 {
+  if (n & (n-1)) throw std::runtime_error("FFT: length is not a power of two"); // otherwise, the default GSL error handler would abort the program
   if (gsl_fft_complex_radix2_transform(data,stride,n,(sign==DIR_XK ? gsl_fft_forward : gsl_fft_backward))!=GSL_SUCCESS) 
     throw std::runtime_error("gsl_fft_complex_radix2_transform failed");
 }
-- 
2.43.0


From 4ddd7a1f6fb1e9fe322ae1702bab629678bec23b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:44 +0000
Subject: [PATCH 06/35] fix: ODE stepping backward works as first step and
 after very small steps

---
 CPPQEDutils/ODE.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CPPQEDutils/ODE.h b/CPPQEDutils/ODE.h
index 7583935..a18a0ed 100644
--- a/CPPQEDutils/ODE.h
+++ b/CPPQEDutils/ODE.h
@@ -236,9 +236,9 @@ void cppqedutils::ode_engine::Base<ControlledErrorStepper,Logger>::step(Time del
 {  
   const Time timeBefore=time;
   
-  Time nextDtTry=( fabs(deltaT)<fabs(dtTry_/nextDtTryCorrectionFactor) ? dtTry_ : 0. );
+  if (sign(deltaT)!=sign(dtTry_)) dtTry_=std::copysign(dtDid_!=0 ? dtDid_ : dtTry_,deltaT); // Stepping backward
   
-  if (sign(deltaT)!=sign(dtTry_)) dtTry_=-dtDid_; // Stepping backward
+  Time nextDtTry=( fabs(deltaT)<fabs(dtTry_/nextDtTryCorrectionFactor) ? dtTry_ : 0. );
   
   if (fabs(dtTry_)>fabs(deltaT)) dtTry_=deltaT;
   
-- 
2.43.0


From 773abfe11896f6f3a2f75fe7f5b837a9787f1e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:44 +0000
Subject: [PATCH 07/35] fix: the GSL stepper undoes and retries steps whose
 error exceeds the prescribed one

---
 CPPQEDutils/ODE_GSL.h | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/CPPQEDutils/ODE_GSL.h b/CPPQEDutils/ODE_GSL.h
index cad3086..95820a0 100644
--- a/CPPQEDutils/ODE_GSL.h
+++ b/CPPQEDutils/ODE_GSL.h
@@ -39,7 +39,6 @@ public:
   /**
    * Differences:
    * - First-same-as-last steppers not supported (at the moment only RKCK is supported)
-   * - There is no guard against the stepsize becoming infinitesimal 
    */
   template <typename System, typename S>
   auto try_step(System sys, S&& stateInOut, double& time, double& dtTry)
@@ -66,6 +65,8 @@ public:
     
     gsl_odeiv2_system dydt{ControlledErrorStepperGSL::lowLevelSystemFunction,nullptr,totalExtent,&aux};
     
+    const ValueVector stateBefore(Data<StateType>::_(stateInOut),Data<StateType>::_(stateInOut)+totalExtent);
+
     auto step_status = gsl_odeiv2_step_apply (step_.get(), time, dtTry, Data<StateType>::_(stateInOut), yerr_->data(), nullptr, dydt_out_->data(), &dydt);
     
     if (step_status == GSL_EFAULT || step_status == GSL_EBADFUNC) throw std::runtime_error("GSL bad step_status");
@@ -75,10 +76,14 @@ public:
       return bno::fail;
     }
     else {
-      time+=dtTry;
-      /* const auto hadjust_status = */
-      gsl_odeiv2_control_hadjust (control_.get(), step_.get(), Data<StateType>::_(stateInOut), yerr_->data(), dydt_out_->data(), &dtTry);
-      // if (hadjust_status == GSL_ODEIV_HADJ_DEC) throw std::runtime_error{"Unexpected change of dtTry in ControlledErrorStepperGSL::tryStep"};
+      const double dt=dtTry;
+      const auto hadjust_status = gsl_odeiv2_control_hadjust (control_.get(), step_.get(), Data<StateType>::_(stateInOut), yerr_->data(), dydt_out_->data(), &dtTry);
+      if (hadjust_status == GSL_ODEIV_HADJ_DEC && time+dtTry!=time) {
+        // the error is larger than prescribed: the step has to be undone and retried with the decreased dtTry (unless that became infinitesimal)
+        std::copy(stateBefore.begin(),stateBefore.end(),Data<StateType>::_(stateInOut));
+        return bno::fail;
+      }
+      time+=dt;
       return bno::success;
     }
   }
-- 
2.43.0


From a316bf20313e719469f4ee71817b92427155a90f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:55 +0000
Subject: [PATCH 08/35] fix: the returned record of a run contains every
 streamed line, also the one at the end instant

---
 CPPQEDutils/Trajectory.h | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/CPPQEDutils/Trajectory.h b/CPPQEDutils/Trajectory.h
index bc60033..b8814bd 100644
--- a/CPPQEDutils/Trajectory.h
+++ b/CPPQEDutils/Trajectory.h
@@ -543,7 +543,13 @@ cppqedutils::trajectory::run(TRAJ&& traj, LENGTH length, DELTA streamFreq, unsig
       commentingStream<<"Continuing from time "<<traj.getTime()<<" up to time "<<timeToReach<<endl;
   }
 
-  if (!timeToReach) {stream(traj,os,precision); return res;}
+  const auto streamAndRecord = [&] () {
+    auto streamReturn{stream(traj,os,precision)};
+    if (returnStreamedArray) res.emplace_back(traj.getTime(),traj.getDtDid(),get<1>(streamReturn));
+    return streamReturn;
+  };
+
+  if (!timeToReach) {streamAndRecord(); return res;}
 
   //////////////////////////////
   // Mid section: the actual run
@@ -587,16 +593,14 @@ cppqedutils::trajectory::run(TRAJ&& traj, LENGTH length, DELTA streamFreq, unsig
 
         if (count || !continuing) {
           arrayStreamed=true;
-          auto streamReturn{stream(traj,os,precision)};
-          if (returnStreamedArray) res.emplace_back(traj.getTime(),traj.getDtDid(),get<1>(streamReturn));
-          autostopHandler(get<1>(streamReturn));
+          autostopHandler(get<1>(streamAndRecord()));
         }
       }
     } // end of main for loop
 
   } catch (const StoppingCriterionReachedException& except) {commentingStream<<"Stopping criterion has been reached"<<endl;}
   
-  if (!arrayStreamed) stream(traj,os,precision); // Stream at the end instant if stream has not happened yet
+  if (!arrayStreamed) streamAndRecord(); // Stream at the end instant if stream has not happened yet
 
   //////////////////////////////////////////
   // Logging on end, saving trajectory state
-- 
2.43.0


From 97f497285c63bca2fe62c72d04fc44c50f455e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:52 +0000
Subject: [PATCH 09/35] fix: a truncated state file is refused instead of being
 read as a state never saved

---
 CPPQEDutils/Trajectory.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CPPQEDutils/Trajectory.h b/CPPQEDutils/Trajectory.h
index b8814bd..fd0c9d9 100644
--- a/CPPQEDutils/Trajectory.h
+++ b/CPPQEDutils/Trajectory.h
@@ -398,8 +398,8 @@ void readViaSStream(Trajectory& traj, std::shared_ptr<std::istream> ifs)
   istringstream iss(ios_base::binary);
   {
     string buffer;
-    streamsize n; *ifs>>n; buffer.resize(n);
-    ifs->read(&buffer[0],n);
+    streamsize n{0}; *ifs>>n; buffer.resize(n);
+    if (!ifs->read(&buffer[0],n)) throw runtime_error("Truncated or corrupted state in cppqedutils::trajectory::readViaSStream");
     iss.str(buffer);
   }
   iarchive stateArchive(iss);
-- 
2.43.0


From d2179ad18f3bf63802ecc12546c32e7d79e8660f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:17:21 +0000
Subject: [PATCH 10/35] fix: exact propagation over zero time is the identity
 also when asked first

---
 CPPQEDcore/structure/FreeExact.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CPPQEDcore/structure/FreeExact.h b/CPPQEDcore/structure/FreeExact.h
index b6dc2bb..ff2949a 100644
--- a/CPPQEDcore/structure/FreeExact.h
+++ b/CPPQEDcore/structure/FreeExact.h
@@ -23,7 +23,7 @@ public:
   typedef typename ExactTimeDependenceDispatched<1,IS_TWO_TIME>::Time Time;
 
 protected:
-  explicit FreeExact(size_t dim) : diagonal_(int(dim)), t_(0,0) {}
+  explicit FreeExact(size_t dim) : diagonal_(int(dim)), t_(0,0) {diagonal_=1.;}
   
   Diagonal& getDiagonal() const {return diagonal_;}
 
-- 
2.43.0


From cff0a06f586739f8d7c7998a5b69bb1cf205efad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:20:21 +0000
Subject: [PATCH 11/35] fix: Kerr nonlinearity of a mode acts alike in every
 picture

---
 CPPQEDelements/frees/BichromaticMode.h | 2 +-
 CPPQEDelements/frees/Mode.cc           | 8 ++++----
 CPPQEDelements/frees/Mode.tcc          | 4 ++--
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/CPPQEDelements/frees/BichromaticMode.h b/CPPQEDelements/frees/BichromaticMode.h
index cde6fcb..ecce0c0 100644
--- a/CPPQEDelements/frees/BichromaticMode.h
+++ b/CPPQEDelements/frees/BichromaticMode.h
@@ -36,7 +36,7 @@ public:
   {
     mode::Hamiltonian<true>::getH_OverIs().push_back(
                                                      furnishWithFreqs(mode::pumping(p.etaOther,getDimension()),
-                                                                      mode::mainDiagonal(zI_Other,0,getDimension()))
+                                                                      mode::mainDiagonal(zI_Other,-p.omegaKerr,getDimension()))
                                                      );
     getParsStream()<<"Bichromatic pumping."; mode::isFiniteTempStream<TEMPERATURE>(getParsStream(),p.nTh);
   }
diff --git a/CPPQEDelements/frees/Mode.cc b/CPPQEDelements/frees/Mode.cc
index 1438922..ea7bc0b 100644
--- a/CPPQEDelements/frees/Mode.cc
+++ b/CPPQEDelements/frees/Mode.cc
@@ -41,7 +41,7 @@ Exact::Exact(dcomp zI, double omegaKerr, size_t dim)
 
 void Exact::updateU(Time t) const
 {
-  getDiagonal()=exp(-zI_*(double(t)*blitz::tensor::i));
+  getDiagonal()=exp(-double(t)*mainDiagonal(zI_,-omegaKerr_,getDiagonal().size()));
 }
 
 
@@ -76,7 +76,7 @@ Tridiagonal hOverI(dcomp z, dcomp eta, double omegaKerr, size_t dim)
 // Here we use runtime dispatching because runtime dispatching will anyway happen at the latest in some maker function.
 {
   bool isPumped=isNonZero(eta);
-  if (isNonZero(z)) {
+  if (isNonZero(z) || omegaKerr) {
     Tridiagonal res(mainDiagonal(-z,omegaKerr,dim));
     if (isPumped) return res+pumping(eta,dim);
     else return res;
@@ -94,7 +94,7 @@ Tridiagonal hOverI(dcomp z, dcomp eta, double omegaKerr, size_t dim)
 
 template<> template<>
 Hamiltonian<true >::Hamiltonian(dcomp zSch, dcomp zI, dcomp eta, double omegaKerr, double omegaKerrAlter, size_t dim)
-  : Base(furnishWithFreqs(hOverI(zSch,eta,omegaKerr,dim),mainDiagonal(zI,omegaKerr,dim))), Exact(zI,omegaKerr,dim), zSch_(zSch), eta_(eta), dim_(dim)
+  : Base(furnishWithFreqs(hOverI(zSch,eta,0,dim),mainDiagonal(zI,-omegaKerr,dim))), Exact(zI,omegaKerr,dim), zSch_(zSch), eta_(eta), dim_(dim)
 {
   FILLKERR
 }
@@ -289,7 +289,7 @@ const Tridiagonal aop(Ptr mode)
 {
   size_t dim=mode->getDimension();
   Tridiagonal res(aop(dim));
-  if (const auto exact=dynamic_cast<const mode::Exact*>(mode.get())) res.furnishWithFreqs(mainDiagonal(exact->get_zI(),exact->get_omegaKerr(),dim));
+  if (const auto exact=dynamic_cast<const mode::Exact*>(mode.get())) res.furnishWithFreqs(mainDiagonal(exact->get_zI(),-exact->get_omegaKerr(),dim));
   return res;
 }
 
diff --git a/CPPQEDelements/frees/Mode.tcc b/CPPQEDelements/frees/Mode.tcc
index 981933d..ed18aae 100644
--- a/CPPQEDelements/frees/Mode.tcc
+++ b/CPPQEDelements/frees/Mode.tcc
@@ -95,7 +95,7 @@ void AveragedMonitorCutoff<Base>::process_v(Averages& averages) const
 
 template<typename AveragingType> template<typename... AveragingConstructorParameters>
 Mode<AveragingType>::Mode(const mode::Pars& p, AveragingConstructorParameters&&... a)
-  : mode::Exact(dcomp(0,-p.delta),p.omegaKerr,p.cutoff),
+  : mode::Exact(dcomp(0,-p.delta),p.omegaKerr+p.omegaKerrAlter,p.cutoff),
     ModeBase(p.cutoff,TUPLE_delta(1)),
     AveragingType(std::forward<AveragingConstructorParameters>(a)...)
 {}
@@ -134,7 +134,7 @@ PumpedModeSch<AveragingType>::PumpedModeSch(const mode::ParsPumped& p, Averaging
 template<bool TEMPERATURE, typename AveragingType> template<typename... AveragingConstructorParameters>
 LossyMode<TEMPERATURE,AveragingType>::LossyMode(const mode::ParsLossy& p, AveragingConstructorParameters&&... a)
   : mode::Liouvillean<TEMPERATURE>(p.kappa,p.nTh),
-    mode::Exact(dcomp(mode::finiteTemperatureHamiltonianDecay<TEMPERATURE>(p),-p.delta),p.omegaKerr,p.cutoff),
+    mode::Exact(dcomp(mode::finiteTemperatureHamiltonianDecay<TEMPERATURE>(p),-p.delta),p.omegaKerr+p.omegaKerrAlter,p.cutoff),
     ModeBase(p.cutoff,TUPLE_kappadelta(1)),
     AveragingType(std::forward<AveragingConstructorParameters>(a)...)
 {
-- 
2.43.0


From 9b0459e4a4f0dc6a34e69de32bd019c11ef7f0e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:20:21 +0000
Subject: [PATCH 12/35] fix: PumpedLossyModeAlternative decays with the thermal
 photons taken into account

---
 CPPQEDelements/frees/Mode.tcc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CPPQEDelements/frees/Mode.tcc b/CPPQEDelements/frees/Mode.tcc
index ed18aae..c7e8418 100644
--- a/CPPQEDelements/frees/Mode.tcc
+++ b/CPPQEDelements/frees/Mode.tcc
@@ -203,7 +203,7 @@ PumpedLossyModeSch<TEMPERATURE,AveragingType>::PumpedLossyModeSch(const mode::Pa
 template<bool TEMPERATURE, typename AveragingType> template<typename... AveragingConstructorParameters>
 PumpedLossyModeAlternative<TEMPERATURE,AveragingType>::PumpedLossyModeAlternative(const mode::ParsPumpedLossy& p, AveragingConstructorParameters&&... a)
   : mode::Liouvillean<TEMPERATURE,true>(p.kappa,p.nTh),
-    mode::Hamiltonian<true>(0,dcomp(p.kappa,-p.delta),p.eta,p.omegaKerr,p.omegaKerrAlter,p.cutoff),
+    mode::Hamiltonian<true>(0,dcomp(mode::finiteTemperatureHamiltonianDecay<TEMPERATURE>(p),-p.delta),p.eta,p.omegaKerr,p.omegaKerrAlter,p.cutoff),
     ModeBase(p.cutoff,{TUPLE_kappadelta(1),TUPLE_eta}),
     AveragingType(std::forward<AveragingConstructorParameters>(a)...)
 {
-- 
2.43.0


From 5a77260844cb20aff7b270c7c4e293c46812b508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:38 +0000
Subject: [PATCH 13/35] fix: norm loss of a lossy spin larger than one half
 matches its jump rate

---
 CPPQEDelements/frees/Spin.cc | 12 ++++++------
 CPPQEDelements/frees/Spin.h  |  5 ++++-
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/CPPQEDelements/frees/Spin.cc b/CPPQEDelements/frees/Spin.cc
index 7c48303..e433a25 100644
--- a/CPPQEDelements/frees/Spin.cc
+++ b/CPPQEDelements/frees/Spin.cc
@@ -34,9 +34,11 @@ size_t decideDimension(size_t twoS, size_t dim)
 
 Diagonal mainDiagonal(size_t dim, size_t twoS, dcomp z)
 {
-  Diagonal diagonal(dim);
-  diagonal=blitz::tensor::i-twoS/2.;
-  return Diagonal(z*diagonal);
+  using blitz::tensor::i;
+  Diagonal precession(dim), decay(dim);
+  precession=i-twoS/2.;
+  decay=i*(twoS+1.-i); // S+S-, as required by the jump operator S-
+  return Diagonal(dcomp(0,imag(z))*precession+real(z)*decay);
 }
 
 
@@ -128,9 +130,7 @@ void SpinBase::process_v(spin::Averages& averages) const
 
 void Spin::updateU(structure::OneTime dtDid) const
 {
-  Diagonal& factors(getDiagonal());
-  for (int i=0; i<factors.size(); i++)
-    factors(i)=exp(-dtDid*i*get_z());
+  getDiagonal()=exp(-double(dtDid)*spin::mainDiagonal(getDimension(),getTwoS(),get_z()));
 }
 
 
diff --git a/CPPQEDelements/frees/Spin.h b/CPPQEDelements/frees/Spin.h
index fc0f83c..bc73142 100644
--- a/CPPQEDelements/frees/Spin.h
+++ b/CPPQEDelements/frees/Spin.h
@@ -26,6 +26,8 @@ using namespace structure::freesystem;
 
 typedef std::shared_ptr<const SpinBase> Ptr;
 
+Tridiagonal::Diagonal mainDiagonal(size_t dim, size_t twoS, dcomp z); ///< the free precession and the decay due to \f$S_-\f$ jumps, cf. SpinBase::get_z
+
 Tridiagonal splus(size_t dim, size_t twoS, dcomp z, bool isExact);
 
 inline auto sminus(size_t dim, size_t twoS, dcomp z, bool isExact) {return splus(dim,twoS,z,isExact).dagger();}
@@ -141,7 +143,8 @@ public:
 
   SpinSch(const spin::Pars& p) 
     : SpinBase(p.twoS,p.theta,p.phi,p.omega,p.gamma,p.dim),
-      quantumoperator::TridiagonalHamiltonian<1,false>(-get_z()*spin::sn(getDimension(),p.twoS,get_z(),false,p.theta,p.phi))
+      quantumoperator::TridiagonalHamiltonian<1,false>(-1i*getOmega()*spin::sn(getDimension(),p.twoS,get_z(),false,p.theta,p.phi)
+                                                       -spin::Tridiagonal(spin::mainDiagonal(getDimension(),p.twoS,getGamma())))
   {
     getParsStream()<<"Schrodinger picture."<<std::endl;
   }
-- 
2.43.0


From 2bd758ab08899235945617de8aaca35fa2106ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:26 +0000
Subject: [PATCH 14/35] fix: phase-noise superoperator of multi-level systems
 uses the coefficient of each level

---
 CPPQEDcore/structure/ElementLiouvillean.h | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/CPPQEDcore/structure/ElementLiouvillean.h b/CPPQEDcore/structure/ElementLiouvillean.h
index f09e3e9..7658345 100644
--- a/CPPQEDcore/structure/ElementLiouvillean.h
+++ b/CPPQEDcore/structure/ElementLiouvillean.h
@@ -367,12 +367,10 @@ protected:
     if (rho.extent(0)!=dim_ || rho.extent(1)!=dim_) throw ElementLiouvilleanDiffusiveDimensionalityMismatchException("In actWithSuperoperator_v");
     if (lindbladNo<base_nAvr_) Base::actWithSuperoperator_v(t,rho,drhodt,lindbladNo);
     else if(lindbladNo==base_nAvr_) { // with this single case we cover the action of all the diffusive Lindblads
-      for (int m=0; m<dim_; ++m) {
-        drhodt(m,m)+=2*diffusionCoeffs_[lindbladNo-base_nAvr_]*rho(m,m);
-        for (int n=m+1; n<dim_; ++n) {
-          drhodt(m,n)-=6*diffusionCoeffs_[lindbladNo-base_nAvr_]*rho(m,n);
-          drhodt(n,m)-=6*diffusionCoeffs_[lindbladNo-base_nAvr_]*rho(n,m);
-        }
+      for (int m=0; m<dim_; ++m) for (int n=m+1; n<dim_; ++n) { // sum of the full dissipators: the populations are unaffected
+        const double decoherenceRate=4*(diffusionCoeffs_[m]+diffusionCoeffs_[n]);
+        drhodt(m,n)-=decoherenceRate*rho(m,n);
+        drhodt(n,m)-=decoherenceRate*rho(n,m);
       }
     }
   }
-- 
2.43.0


From fff252b8d97ae4985907f499c2f0c61519660a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:29:45 +0000
Subject: [PATCH 15/35] fix: a vector parameter with wrong delimiters is
 refused

---
 CPPQEDutils/IO_Manip.h | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/CPPQEDutils/IO_Manip.h b/CPPQEDutils/IO_Manip.h
index 69223b6..327ce8f 100644
--- a/CPPQEDutils/IO_Manip.h
+++ b/CPPQEDutils/IO_Manip.h
@@ -37,22 +37,17 @@ public:
     using namespace std;
 
     char sep;
-              
-    is >> sep;
-    BZPRECHECK(sep == tuple_open, "Format error while scanning input TinyVector" << endl << string(" (expected '") + tuple_open + string("' opening TinyVector)") );
+    // scans a single separator, mismatch is signalled via the failbit
+    auto expect=[&](char c) {if (is >> sep && sep != c) is.setstate(ios_base::failbit);};
 
+    expect(tuple_open);
     is >> x(0);
     for (int i = 1; i < NL; ++i) {
-      if (!isspace(tuple_delimiter)) {
-        is >> sep;
-        BZPRECHECK(sep == tuple_delimiter, "Format error while scanning input TinyVector" << endl << string(" (expected '") + tuple_delimiter + string("' between TinyVector components)") );
-      }
-      BZPRECHECK(!is.bad(), "Premature end of input while scanning TinyVector");
+      expect(tuple_delimiter);
       is >> x(i);
     }
-    is >> sep;
-    BZPRECHECK(sep == tuple_close, "Format error while scanning input TinyVector" << endl << string(" (expected '") + tuple_close + string("' closing TinyVector)") );
-      
+    expect(tuple_close);
+
     return is;
   }
 
-- 
2.43.0


From 3c32c4012ec3072b4db388dcfd81f0b94c3e809b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:35:38 +0000
Subject: [PATCH 16/35] fix: ParticleTwoModes couples with the same phase
 whether or not the wave numbers are equal

---
 CPPQEDelements/interactions/ParticleTwoModes.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CPPQEDelements/interactions/ParticleTwoModes.cc b/CPPQEDelements/interactions/ParticleTwoModes.cc
index 3c9a6c5..8515489 100644
--- a/CPPQEDelements/interactions/ParticleTwoModes.cc
+++ b/CPPQEDelements/interactions/ParticleTwoModes.cc
@@ -35,7 +35,7 @@ ParticleTwoModes::ParticleTwoModes(mode::Ptr mode0, mode::Ptr mode1, particle::P
                                    double phi)
   : structure::Interaction<3>({mode0,mode1,part},
                               {RF{"Unot0",uNot0,sqrt(mode0->getDimension())},RF{"Unot1",uNot1,sqrt(mode1->getDimension())}}),
-                              firstH_(factor(uNot0,uNot1,phi)*mode::aop(mode0)*mode::aop(mode1).dagger()*mfNKX(part,mf0)/1i), firstHT_(-firstH_.dagger()),
+                              firstH_(conj(factor(uNot0,uNot1,phi))*mode::aop(mode0)*mode::aop(mode1).dagger()*mfNKX(part,mf0)/1i), firstHT_(-firstH_.dagger()),
     secondH_(mfNKX(part,mf1).dagger()), secondHT_(secondH_.dagger()),
     isSpecialH_(abs(get<1>(mf0))==abs(get<1>(mf1))),
     specialH_(isSpecialH_ ? Tridiagonals{quantumoperator::tridiagPlusHC_overI( factor(uNot0,uNot1,phi)*mode::aop(mode0).dagger()*mode::aop(mode1)*mfComposition(part,mf0,mf1) )}: Tridiagonals{})
-- 
2.43.0


From 4a005230aca8a3fd259cf46b921260eb6378cac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:40:55 +0000
Subject: [PATCH 17/35] fix: highest frequency of a Composite takes its
 interactions into account

---
 CPPQEDcore/composites/Composite.tcc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/CPPQEDcore/composites/Composite.tcc b/CPPQEDcore/composites/Composite.tcc
index 1c2c1e9..bade5b1 100644
--- a/CPPQEDcore/composites/Composite.tcc
+++ b/CPPQEDcore/composites/Composite.tcc
@@ -117,13 +117,15 @@ std::ostream& composite::Base<VA>::streamParameters_v(std::ostream& os) const
 template<typename VA>
 double composite::Base<VA>::highestFrequency_v() const
 {
-  return boost::max_element(
+  const double freesHighest=boost::max_element(
     frees_,
     [](const SubSystemFree& ssf1, const SubSystemFree& ssf2) {
       return ssf1.get()->highestFrequency() < ssf2.get()->highestFrequency();
     })->get()->highestFrequency();
   
-  // NEEDS_WORK add the interactions here
+  return boost::fusion::fold(acts_,freesHighest,[](double highest, const auto& act) -> double {
+    return std::max(highest,act.get()->highestFrequency());
+  });
 }
 
 
-- 
2.43.0


From c98e7d282eac9f5e8999c1979ce35cdd34ffc89a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:40:55 +0000
Subject: [PATCH 18/35] fix: jumps of the interaction in a BinarySystem whose
 second free has no jumps are performed

---
 CPPQEDcore/composites/BinarySystem.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/CPPQEDcore/composites/BinarySystem.cc b/CPPQEDcore/composites/BinarySystem.cc
index f4a2143..6c8aad1 100644
--- a/CPPQEDcore/composites/BinarySystem.cc
+++ b/CPPQEDcore/composites/BinarySystem.cc
@@ -227,7 +227,8 @@ void binary::Liouvillean::actWithJ_v(double t, StateVectorLow& psi, size_t i) co
   }
 
   i-=n;  
-  if (li1 && i<(n=free1_.nAvr<LA_Li>())) {
+  n=free1_.nAvr<LA_Li>();
+  if (li1 && i<n) {
     for(auto& psiS : fullRange<V1>(psi)) li1->actWithJ(t,psiS,i);
     return;
   }
@@ -261,7 +262,8 @@ void binary::Liouvillean::actWithSuperoperator_v(double t, const DensityOperator
   }
 
   i-=n;  
-  if (li1 && i<(n=free1_.nAvr<LA_Li>())) {
+  n=free1_.nAvr<LA_Li>();
+  if (li1 && i<n) {
     boost::range::for_each(fullRange<V1>(rho),fullRange<V1>(drhodt),lambda(li1));
     return;
   }
-- 
2.43.0


From 9a4f9c45ee6c2bf6c013b72a7ea454bcd8d71350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:47:16 +0000
Subject: [PATCH 19/35] fix: the legend of a spin names the variance of sz,
 which is what is streamed

---
 CPPQEDelements/frees/Spin.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CPPQEDelements/frees/Spin.cc b/CPPQEDelements/frees/Spin.cc
index e433a25..d62691c 100644
--- a/CPPQEDelements/frees/Spin.cc
+++ b/CPPQEDelements/frees/Spin.cc
@@ -89,7 +89,7 @@ Pars::Pars(parameters::Table& p, const std::string& mod)
 
 SpinBase::SpinBase(size_t twoS, double theta, double phi, double omega, double gamma, size_t dim) 
   : Free(spin::decideDimension(twoS,dim),{RF{"omega",omega,1},RF{"gamma",gamma,1}}),
-    structure::ElementAveraged<1>("Spin",{"<sz>","<sz^2>","real(<s^+>)","imag(\")","|Psi(dim-1)|^2"}), twoS_(twoS), theta_(theta), phi_(phi), omega_(omega), gamma_(gamma), s_(twoS/2.)
+    structure::ElementAveraged<1>("Spin",{"<sz>","VAR(sz)","real(<s^+>)","imag(\")","|Psi(dim-1)|^2"}), twoS_(twoS), theta_(theta), phi_(phi), omega_(omega), gamma_(gamma), s_(twoS/2.)
 {
   getParsStream()<<"Spin "<<s_<<endl;
   getParsStream()<<"theta="<<theta_<<" phi="<<phi_<<endl;
-- 
2.43.0


From 9a156635e4f5d9f641701f0e23b39ebb4ed19db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:48:01 +0000
Subject: [PATCH 20/35] fix: ReducedDensityOperatorNegativity keeps the matrix
 elements and can be collected

---
 CPPQEDelements/utils/AveragingUtils.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/CPPQEDelements/utils/AveragingUtils.h b/CPPQEDelements/utils/AveragingUtils.h
index 08b09c6..ebb929f 100644
--- a/CPPQEDelements/utils/AveragingUtils.h
+++ b/CPPQEDelements/utils/AveragingUtils.h
@@ -107,10 +107,13 @@ public:
     : Base(label,dim,true,boost::assign::list_of("negativity")) {}
 
 private:
+  structure::ClonableElementAveraged<RANK>*const do_clone() const override {return new ReducedDensityOperatorNegativity(*this);}
+
   const structure::Averages average_v(structure::NoTime t, const quantumdata::LazyDensityOperator<RANK>& matrix) const override
   {
     auto res(Base::average_v(t,matrix));
-    res.resize(res.size()+1);
+    const int last=res.size();
+    res.resizeAndPreserve(last+1); res(last)=0.; // to be filled in process_v
     return res;
   }
 
-- 
2.43.0


From 96e0268fe10722bef1073ece1960df0ad3a87118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:48:01 +0000
Subject: [PATCH 21/35] fix: DEV(X) of a particle localized at a single point
 is zero, not NaN

---
 CPPQEDelements/frees/Particle.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CPPQEDelements/frees/Particle.cc b/CPPQEDelements/frees/Particle.cc
index 3e9e2d3..eff2d62 100644
--- a/CPPQEDelements/frees/Particle.cc
+++ b/CPPQEDelements/frees/Particle.cc
@@ -168,7 +168,7 @@ auto particle::Averaged::average_v(NoTime, const LazyDensityOperator& matrix) co
 void particle::Averaged::process_v(Averages& averages) const
 {
   averages(1)-=sqr(averages(0));
-  averages(3)=sqrt(averages(3)-sqr(averages(2)));
+  averages(3)=sqrt(std::max(0.,averages(3)-sqr(averages(2)))); // rounding errors might make the variance of a well-localized particle slightly negative
 }
 
 
-- 
2.43.0


From 5e71c24a0f5f4aafa6e0fda20a0b9f6de4ffb6ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:46 +0000
Subject: [PATCH 22/35] fix: an undone MCWF step restores also the instant
 where the pictures coincide

---
 CPPQEDcore/quantumtrajectory/MCWF_Trajectory.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CPPQEDcore/quantumtrajectory/MCWF_Trajectory.h b/CPPQEDcore/quantumtrajectory/MCWF_Trajectory.h
index 1646809..6d047d5 100644
--- a/CPPQEDcore/quantumtrajectory/MCWF_Trajectory.h
+++ b/CPPQEDcore/quantumtrajectory/MCWF_Trajectory.h
@@ -348,7 +348,7 @@ template<int RANK, typename ODE_Engine, typename RandomEngine>
 void quantumtrajectory::MCWF_Trajectory<RANK,ODE_Engine,RandomEngine>::step(double Dt, std::ostream& logStream)
 {
   const StateVector psiCache(psi_); // deep copy
-  double tCache=t_, dtDidCache=getDtDid();
+  double tCache=t_, t0Cache=t0_, dtDidCache=getDtDid();
 
   coherentTimeDevelopment(Dt,logStream);
 
@@ -358,7 +358,7 @@ void quantumtrajectory::MCWF_Trajectory<RANK,ODE_Engine,RandomEngine>::step(doub
     IndexSVL_tuples specialRates=calculateSpecialRates(&rates);
 
     while (manageTimeStep(rates,tCache,dtDidCache,logStream)) {
-      psi_=psiCache;
+      psi_=psiCache; t0_=t0Cache;
       coherentTimeDevelopment(Dt,logStream); // the next try
       rates=li->rates(t_,psi_);
       specialRates=calculateSpecialRates(&rates);
-- 
2.43.0


From 70a8c12de8d55344c870226f513b05a112d00a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:46 +0000
Subject: [PATCH 23/35] fix: an MCWF step is retried with a smaller timestep
 also without overshoot tolerance

---
 CPPQEDcore/quantumtrajectory/MCWF_Trajectory.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/CPPQEDcore/quantumtrajectory/MCWF_Trajectory.h b/CPPQEDcore/quantumtrajectory/MCWF_Trajectory.h
index 6d047d5..d35cc19 100644
--- a/CPPQEDcore/quantumtrajectory/MCWF_Trajectory.h
+++ b/CPPQEDcore/quantumtrajectory/MCWF_Trajectory.h
@@ -302,7 +302,8 @@ manageTimeStep(const structure::Rates& rates, double tCache, double dtDidCache,
 
   // Assumption: overshootTolerance_>=1 (equality is the limiting case of no tolerance)
   if (totalRate*dtDid>overshootTolerance_*dpLimit_) {
-    t_=tCache; ode_.setDtDid(dtDidCache); ode_.setDtTry(liouvilleanSuggestedDtTry);
+    // the step to be retried must be really smaller, otherwise with overshootTolerance_==1, a rounding error could lead to stepping back forever
+    t_=tCache; ode_.setDtDid(dtDidCache); ode_.setDtTry(std::min(liouvilleanSuggestedDtTry,.999*dtDid));
     logger_.stepBack(logStream,totalRate*dtDid,dtDid,ode_.getDtTry(),t_,logControl);
     return true; // Step-back required.
   }
-- 
2.43.0


From 76c091e3070f3c2f2259cf6293fbe67f3a043598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:11 +0000
Subject: [PATCH 24/35] fix: the master equation refuses a lossy mode with Kerr
 nonlinearity in its exact part, for which it gives a wrong result

---
 CPPQEDelements/frees/Mode_.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/CPPQEDelements/frees/Mode_.h b/CPPQEDelements/frees/Mode_.h
index 49cc45a..6153dde 100644
--- a/CPPQEDelements/frees/Mode_.h
+++ b/CPPQEDelements/frees/Mode_.h
@@ -110,7 +110,8 @@ public:
 private:
   void updateU(Time) const; ///< `Time` is structure::OneTime in this case
 
-  bool applicableInMaster_v() const {return !bool(real(zI_));}
+  // besides unitarity, it is also necessary that the jumps not be affected by the transformation between the pictures, cf. \ref masterequationlimitations
+  bool applicableInMaster_v() const {return !bool(real(zI_)) && !(omegaKerr_ && dynamic_cast<const structure::Liouvillean<1>*>(this));}
 
   const dcomp zI_;
   
-- 
2.43.0


From 26b1817a0e4629438931865d80f33e4cb6827de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:56:47 +0000
Subject: [PATCH 25/35] fix: an MCWF step backward by the rounding error of the
 time performs no jump

---
 CPPQEDcore/quantumtrajectory/MCWF_Trajectory.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/CPPQEDcore/quantumtrajectory/MCWF_Trajectory.h b/CPPQEDcore/quantumtrajectory/MCWF_Trajectory.h
index d35cc19..81ab3be 100644
--- a/CPPQEDcore/quantumtrajectory/MCWF_Trajectory.h
+++ b/CPPQEDcore/quantumtrajectory/MCWF_Trajectory.h
@@ -327,7 +327,8 @@ void quantumtrajectory::MCWF_Trajectory<RANK,ODE_Engine,RandomEngine>::performJu
   for (; random>0 && lindbladNo!=rates.size(); random-=rates(lindbladNo++))
     ;
 
-  if(random<0) { // Jump corresponding to Lindblad no. lindbladNo-1 occurs
+  // a step correcting the rounding error of the time may be negative, then no jump can occur
+  if(lindbladNo && random<0) { // Jump corresponding to Lindblad no. lindbladNo-1 occurs
     --lindbladNo; auto i=boost::find_if(specialRates,[=](const IndexSVL_tuple& j){return lindbladNo==std::get<0>(j);});
     if (i!=specialRates.end())
       // special jump
-- 
2.43.0


From e32ebdfde556fa7bfb28284809565ce61c016e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:07:56 +0000
Subject: [PATCH 26/35] fix: assignment of a Tridiagonal takes over the shapes
 of the diagonals

---
 CPPQEDutils/BlitzTinyOfArrays.h   | 2 ++
 CPPQEDutils/BlitzTinyOfArrays.tcc | 9 +++++++++
 2 files changed, 11 insertions(+)

diff --git a/CPPQEDutils/BlitzTinyOfArrays.h b/CPPQEDutils/BlitzTinyOfArrays.h
index 5bb80b7..f0d06ae 100644
--- a/CPPQEDutils/BlitzTinyOfArrays.h
+++ b/CPPQEDutils/BlitzTinyOfArrays.h
@@ -47,6 +47,8 @@ public:
   // NEED_TO_UNDERSTAND if this is not declared then OK (how, when the composed constructor doesn't have good semantics?), if this is declared private then compile error with return statements, if it is declared public but not DEFINED then OK.
   // For the solution cf. GotW.#1
 
+  inline TinyOfArrays& operator=(const TinyOfArrays&); ///< Deep copy, the elements take over the shapes of those of the other side
+
   inline TinyOfArrays(ShallowCopy, const TinyOfArrays&);
   inline TinyOfArrays(DeepCopy   , const TinyOfArrays&);
 
diff --git a/CPPQEDutils/BlitzTinyOfArrays.tcc b/CPPQEDutils/BlitzTinyOfArrays.tcc
index 93a6c7b..10d96b3 100644
--- a/CPPQEDutils/BlitzTinyOfArrays.tcc
+++ b/CPPQEDutils/BlitzTinyOfArrays.tcc
@@ -47,6 +47,15 @@ inline TinyOfArrays<T,RANK,LENGTH>::TinyOfArrays(DeepCopy   , const TinyOfArrays
 
 
 
+template<typename T, int RANK, int LENGTH>
+inline TinyOfArrays<T,RANK,LENGTH>& TinyOfArrays<T,RANK,LENGTH>::operator=(const TinyOfArrays& x)
+{
+  for (int i=0; i<LENGTH; ++i)
+    (*this)(i).reference(x(i).copy());
+  return *this;
+}
+
+
 template<typename T, int RANK, int LENGTH> 
 const TinyOfArrays<T,RANK,LENGTH>
 negate(const TinyOfArrays<T,RANK,LENGTH>& arrays)
-- 
2.43.0


From 56d0533ee03d234d74abffb4893dcda01650607b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:08:40 +0000
Subject: [PATCH 27/35] fix: coherent states of amplitude above 38 do not
 contain invalid numbers

---
 CPPQEDelements/frees/Mode.cc  |  2 +-
 CPPQEDutils/MathExtensions.cc | 11 +++++++++++
 CPPQEDutils/MathExtensions.h  |  3 +++
 3 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/CPPQEDelements/frees/Mode.cc b/CPPQEDelements/frees/Mode.cc
index ea7bc0b..28dea65 100644
--- a/CPPQEDelements/frees/Mode.cc
+++ b/CPPQEDelements/frees/Mode.cc
@@ -320,7 +320,7 @@ double photonNumber(const LazyDensityOperator& matrix)
 
 StateVector coherent(dcomp alpha, size_t dim)
 {
-  return StateVector{dim,[=](StateVector& psi) {double norm=exp(-cppqedutils::sqrAbs(alpha)/2.); for (size_t n=0; n<dim; ++n) psi(n)=norm*coherentElement(n,alpha);}};
+  return StateVector{dim,[=](StateVector& psi) {for (size_t n=0; n<dim; ++n) psi(n)=coherentStateElement(n,alpha);}};
 }
 
 
diff --git a/CPPQEDutils/MathExtensions.cc b/CPPQEDutils/MathExtensions.cc
index 21a8060..c331c68 100644
--- a/CPPQEDutils/MathExtensions.cc
+++ b/CPPQEDutils/MathExtensions.cc
@@ -7,6 +7,8 @@
 #include <gsl/gsl_math.h>
 #include <gsl/gsl_sf.h>
 
+#include <cmath>
+#include <limits>
 #include <stdexcept>
 
   
@@ -39,3 +41,12 @@ dcomp cppqedutils::coherentElement(unsigned long n, dcomp alpha)
                                             : pow(2*n*PI,-.25)*pow(alpha/sqrt(n/EULER),n)
            : 1.;
 }
+
+
+dcomp cppqedutils::coherentStateElement(unsigned long n, dcomp alpha)
+{
+  const double norm=exp(-sqrAbs(alpha)/2.);
+  if (norm>=std::numeric_limits<double>::min()) return norm*coherentElement(n,alpha);
+  // otherwise the two factors would under- and overflow separately
+  return std::polar(exp(n*log(abs(alpha))-std::lgamma(n+1.)/2.-sqrAbs(alpha)/2.),n*arg(alpha));
+}
diff --git a/CPPQEDutils/MathExtensions.h b/CPPQEDutils/MathExtensions.h
index 0902258..2b7d6cf 100644
--- a/CPPQEDutils/MathExtensions.h
+++ b/CPPQEDutils/MathExtensions.h
@@ -60,6 +60,9 @@ double relativeDeviation(const T& a, const T& b) {return abs(a-b)/(abs(a)+abs(b)
  */
 dcomp coherentElement(unsigned long n, dcomp alpha);
 
+/// Calculates \f$\braket{n}{\alpha}=e^{-\abs{\alpha}^2/2}\frac{\alpha^n}{\sqrt{n!}}\f$ also for such large \f$\alpha\f$ where the two factors under- and overflow
+dcomp coherentStateElement(unsigned long n, dcomp alpha);
+
 
 } // cppqedutils
 
-- 
2.43.0


From 50054292a63ada60d4521a23bbfb17793c1c77e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:09:25 +0000
Subject: [PATCH 28/35] fix: the Q function is valid at points further than 26
 from the origin

---
 CPPQEDcore/quantumdata/DistributionFunctions.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CPPQEDcore/quantumdata/DistributionFunctions.h b/CPPQEDcore/quantumdata/DistributionFunctions.h
index 8865a10..81607b6 100644
--- a/CPPQEDcore/quantumdata/DistributionFunctions.h
+++ b/CPPQEDcore/quantumdata/DistributionFunctions.h
@@ -89,9 +89,9 @@ double qFunction(const DensityOperator& rho, double x, double y, size_t)
   dcomp qComplex;
   
   for (size_t m=0; m<rho.getDimension(); ++m) for (size_t n=0; n<rho.getDimension(); ++n)
-    qComplex+=coherentElement(n,alpha)*coherentElement(m,conj(alpha))*rho(m)(n);
+    qComplex+=coherentStateElement(n,alpha)*coherentStateElement(m,conj(alpha))*rho(m)(n);
   
-  return exp(-sqrAbs(alpha))*real(qComplex);
+  return real(qComplex);
 }
   
 
-- 
2.43.0


From abda3c8e17d0b958e695f934c658d7c659f1cf9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:09:45 +0000
Subject: [PATCH 29/35] fix: a qubit's initial condition is valid for
 amplitudes of unit modulus and refused above

---
 CPPQEDelements/frees/Qbit.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/CPPQEDelements/frees/Qbit.cc b/CPPQEDelements/frees/Qbit.cc
index 1d8fd74..47efe97 100644
--- a/CPPQEDelements/frees/Qbit.cc
+++ b/CPPQEDelements/frees/Qbit.cc
@@ -5,6 +5,9 @@
 
 #include <boost/bind.hpp>
 
+#include <algorithm>
+#include <stdexcept>
+
 
 using namespace cppqedutils; using std::make_shared;
 
@@ -274,8 +277,10 @@ const Tridiagonal sigmadagsigmaop()
 
 StateVector init(dcomp psi1)
 {
+  const double rho00=1-sqrAbs(psi1);
+  if (rho00<-1e-10) throw std::domain_error("The modulus of the amplitude of a qubit's excited state cannot exceed 1");
   StateVector res(2);
-  res(0)=sqrt(1-sqrAbs(psi1)); res(1)=psi1;
+  res(0)=sqrt(std::max(rho00,0.)); res(1)=psi1;
   return res;
 }
 
-- 
2.43.0


From 9baade36e6d4288506f9570870a9985d96dba790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:27 +0000
Subject: [PATCH 30/35] fix: refuse array-only state files whose rank differs
 from that of the trajectory

---
 CPPQEDutils/Trajectory.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/CPPQEDutils/Trajectory.h b/CPPQEDutils/Trajectory.h
index fd0c9d9..7e46f62 100644
--- a/CPPQEDutils/Trajectory.h
+++ b/CPPQEDutils/Trajectory.h
@@ -371,7 +371,10 @@ struct ReadState
   {
     SerializationMetadata sm;
     iar & sm;
-    if (sm.trajectoryID==SerializationMetadata::ARRAY_ONLY) return traj.readFromArrayOnlyArchive(iar);
+    if (sm.trajectoryID==SerializationMetadata::ARRAY_ONLY) {
+      if (sm.rank != MakeSerializationMetadata<Trajectory>::_().rank) throw std::runtime_error("Rank mismatch in cppqedutils::trajectory::ReadState");
+      return traj.readFromArrayOnlyArchive(iar);
+    }
     else {
       if (sm != MakeSerializationMetadata<Trajectory>::_()) throw std::runtime_error("Trajectory mismatch in cppqedutils::trajectory::ReadState");
       return traj.stateIO(iar);
-- 
2.43.0


From 90d0bd2771b4e86967c43a57cadda87ebda2885f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:27 +0000
Subject: [PATCH 31/35] fix: refuse loading a state of other dimensions into
 MCWF_Trajectory and Master

---
 CPPQEDcore/quantumtrajectory/MCWF_Trajectory.h | 10 ++++++++--
 CPPQEDcore/quantumtrajectory/Master.h          | 10 ++++++++--
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/CPPQEDcore/quantumtrajectory/MCWF_Trajectory.h b/CPPQEDcore/quantumtrajectory/MCWF_Trajectory.h
index 81ab3be..b732b8e 100644
--- a/CPPQEDcore/quantumtrajectory/MCWF_Trajectory.h
+++ b/CPPQEDcore/quantumtrajectory/MCWF_Trajectory.h
@@ -129,7 +129,7 @@ public:
   /// Forwards to structure::Averaged::stream
   auto stream(std::ostream& os, int precision) const {return structure::QuantumSystemWrapper<RANK>::stream(getTime(),psi_,os,precision);}
   
-  auto& readFromArrayOnlyArchive(cppqedutils::iarchive& iar) {StateVectorLow temp; iar & temp; psi_.getArray().reference(temp); return iar;}
+  auto& readFromArrayOnlyArchive(cppqedutils::iarchive& iar) {StateVectorLow temp; iar & temp; replaceArray(temp); return iar;}
 
   /** structure of MCWF_Trajectory archives:
   * metaData – array – time – ( odeStepper – odeLogger – dtDid – dtTry ) – randomEngine – logger
@@ -139,7 +139,7 @@ public:
   {
     StateVectorLow temp;
     ode_.stateIO(iar & temp & t_) & re_.engine & logger_;
-    psi_.getArray().reference(temp);
+    replaceArray(temp);
     t0_=t_; // A very important step!
     return iar;
   }
@@ -161,6 +161,12 @@ public:
   double sampleRandom() {return distro_(re_.engine);}
   
 private:
+  void replaceArray(StateVectorLow& a)
+  {
+    if (!blitz::all(a.shape()==psi_.getArray().shape())) throw DimensionalityMismatchException("during MCWF_Trajectory deserialization");
+    psi_.getArray().reference(a);
+  }
+
   typedef std::tuple<int,StateVectorLow> IndexSVL_tuple;
 
   typedef std::vector<IndexSVL_tuple> IndexSVL_tuples;
diff --git a/CPPQEDcore/quantumtrajectory/Master.h b/CPPQEDcore/quantumtrajectory/Master.h
index 8320520..706b3d9 100644
--- a/CPPQEDcore/quantumtrajectory/Master.h
+++ b/CPPQEDcore/quantumtrajectory/Master.h
@@ -84,7 +84,7 @@ public:
   
   auto stream(std::ostream& os, int precision) const {return dos_(t_,rho_,os,precision);}
   
-  auto& readFromArrayOnlyArchive(cppqedutils::iarchive& iar) {DensityOperatorLow temp; iar & temp; rho_.getArray().reference(temp); return iar;}
+  auto& readFromArrayOnlyArchive(cppqedutils::iarchive& iar) {DensityOperatorLow temp; iar & temp; replaceArray(temp); return iar;}
 
   /** structure of Master archives:
   * metaData – array – time – ( odeStepper – odeLogger – dtDid – dtTry )
@@ -94,7 +94,7 @@ public:
   {
     DensityOperatorLow temp;
     ode_.stateIO(iar & temp & t_);
-    rho_.getArray().reference(temp);
+    replaceArray(temp);
     t0_=t_; // A very important step!
     return iar;
   }
@@ -106,6 +106,12 @@ public:
   std::ostream& logOnEnd(std::ostream& os) const {return ode_.logOnEnd(os);}
 
 private:
+  void replaceArray(DensityOperatorLow& a)
+  {
+    if (!blitz::all(a.shape()==rho_.getArray().shape())) throw DimensionalityMismatchException("during Master deserialization");
+    rho_.getArray().reference(a);
+  }
+
   double t_=0., t0_=0.;
   
   DensityOperator rho_;
-- 
2.43.0


From 1cdc544dbd3e8a6004198e97e987d20e680d589b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:21 +0000
Subject: [PATCH 32/35] fix: a state loaded from file is copied into the state
 given by the caller, so that the evolved state can be accessed through it
 also after resuming

---
 CPPQEDcore/quantumtrajectory/MCWF_Trajectory.h | 2 +-
 CPPQEDcore/quantumtrajectory/Master.h          | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/CPPQEDcore/quantumtrajectory/MCWF_Trajectory.h b/CPPQEDcore/quantumtrajectory/MCWF_Trajectory.h
index b732b8e..9c1fef0 100644
--- a/CPPQEDcore/quantumtrajectory/MCWF_Trajectory.h
+++ b/CPPQEDcore/quantumtrajectory/MCWF_Trajectory.h
@@ -164,7 +164,7 @@ private:
   void replaceArray(StateVectorLow& a)
   {
     if (!blitz::all(a.shape()==psi_.getArray().shape())) throw DimensionalityMismatchException("during MCWF_Trajectory deserialization");
-    psi_.getArray().reference(a);
+    psi_.getArray()=a;
   }
 
   typedef std::tuple<int,StateVectorLow> IndexSVL_tuple;
diff --git a/CPPQEDcore/quantumtrajectory/Master.h b/CPPQEDcore/quantumtrajectory/Master.h
index 706b3d9..1765145 100644
--- a/CPPQEDcore/quantumtrajectory/Master.h
+++ b/CPPQEDcore/quantumtrajectory/Master.h
@@ -109,7 +109,7 @@ private:
   void replaceArray(DensityOperatorLow& a)
   {
     if (!blitz::all(a.shape()==rho_.getArray().shape())) throw DimensionalityMismatchException("during Master deserialization");
-    rho_.getArray().reference(a);
+    rho_.getArray()=a;
   }
 
   double t_=0., t0_=0.;
-- 
2.43.0


From 76e05144cd1b4af8a54b990ad87197e819ff6cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:17:57 +0000
Subject: [PATCH 33/35] fix: time-dependent ElementLiouvillean of several
 Lindblads compiles

The chain of virtuals of the individual Lindblads was always the time-independent one.
---
 CPPQEDcore/structure/ElementLiouvillean.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CPPQEDcore/structure/ElementLiouvillean.h b/CPPQEDcore/structure/ElementLiouvillean.h
index 7658345..6f39c6f 100644
--- a/CPPQEDcore/structure/ElementLiouvillean.h
+++ b/CPPQEDcore/structure/ElementLiouvillean.h
@@ -106,7 +106,7 @@ struct ElementLiouvilleanException : std::runtime_error {using std::runtime_erro
  */
 template<int RANK, int NLINDBLADS, bool IS_TIME_DEPENDENT=false>
 class ElementLiouvillean : public ElementLiouvilleanAveragedCommon<LiouvilleanTimeDependenceDispatched<RANK,IS_TIME_DEPENDENT> >,
-                           public lindblad::_<RANK,NLINDBLADS-1,false,NLINDBLADS>
+                           public lindblad::_<RANK,NLINDBLADS-1,IS_TIME_DEPENDENT,NLINDBLADS>
 {
 private:
   typedef ElementLiouvilleanAveragedCommon<LiouvilleanTimeDependenceDispatched<RANK,IS_TIME_DEPENDENT> > Base;
-- 
2.43.0


From 145e26db1b5ba044a6f117530e2bd5894d2e5af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:17:57 +0000
Subject: [PATCH 34/35] fix: Master equation with a time-dependent Hamiltonian
 without exact part

t0 was moved after each step even without interaction picture, so that H(t) (TimeDependence::ONE, case 2)
was taken as H(time since the last step).
---
 CPPQEDcore/quantumtrajectory/Master.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/CPPQEDcore/quantumtrajectory/Master.h b/CPPQEDcore/quantumtrajectory/Master.h
index 1765145..5cd25a8 100644
--- a/CPPQEDcore/quantumtrajectory/Master.h
+++ b/CPPQEDcore/quantumtrajectory/Master.h
@@ -196,10 +196,9 @@ void quantumtrajectory::Master<RANK,ODE_Engine,V>::step(double deltaT, std::ostr
     hermitianConjugateSelf(rhoLow);
     for (auto& rhoS : fullRange<Left>(rhoLow)) ex->actWithU(this->getTime(),rhoS,t0_);
     rhoLow=conj(rhoLow);
+    t0_=t_;
   }
 
-  t0_=t_;
-
   // The following "smoothing" of rho_ has proven necessary for the algorithm to remain stable:
   // We make the approximately Hermitian and normalized rho_ exactly so.
 
-- 
2.43.0


From de3d98afc001c99716df97ac36e48509053f4f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:19:12 +0000
Subject: [PATCH 35/35] fix: resuming a time-dependent system without exact
 part

t0 was set to the time of the loaded state even without interaction picture, so that the resumed evolution
took H(t) as H(t-time of resuming), in contrast to the uninterrupted one.
---
 CPPQEDcore/quantumtrajectory/MCWF_Trajectory.h | 2 +-
 CPPQEDcore/quantumtrajectory/Master.h          | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/CPPQEDcore/quantumtrajectory/MCWF_Trajectory.h b/CPPQEDcore/quantumtrajectory/MCWF_Trajectory.h
index 9c1fef0..87f9b4a 100644
--- a/CPPQEDcore/quantumtrajectory/MCWF_Trajectory.h
+++ b/CPPQEDcore/quantumtrajectory/MCWF_Trajectory.h
@@ -140,7 +140,7 @@ public:
     StateVectorLow temp;
     ode_.stateIO(iar & temp & t_) & re_.engine & logger_;
     replaceArray(temp);
-    t0_=t_; // A very important step!
+    if (this->getEx()) t0_=t_; // A very important step!
     return iar;
   }
   
diff --git a/CPPQEDcore/quantumtrajectory/Master.h b/CPPQEDcore/quantumtrajectory/Master.h
index 5cd25a8..f6d07cd 100644
--- a/CPPQEDcore/quantumtrajectory/Master.h
+++ b/CPPQEDcore/quantumtrajectory/Master.h
@@ -95,7 +95,7 @@ public:
     DensityOperatorLow temp;
     ode_.stateIO(iar & temp & t_);
     replaceArray(temp);
-    t0_=t_; // A very important step!
+    if (this->getEx()) t0_=t_; // A very important step!
     return iar;
   }
   
-- 
2.43.0

