From 02d632e1da30ec5dbca8bb17fb49985359e8eddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:31:14 +0000
Subject: [PATCH 01/34] fix: sampling from a discrete distribution stays inside
 its support

A uniform draw of exactly 0 (a value the generator can return) selected the
element before the first one: state -1, or a read before the begin of the
sample/component/covariance list. A cumulative sum that rounds below the draw
ran past the end, and asking for zero samples with RIPLEY indexed element -1.
---
 orocos_bfl/src/filter/EKparticlefilter.cpp    | 2 +-
 orocos_bfl/src/pdf/discreteconditionalpdf.cpp | 2 +-
 orocos_bfl/src/pdf/discretepdf.cpp            | 5 +++--
 orocos_bfl/src/pdf/mcpdf.h                    | 5 +++--
 orocos_bfl/src/pdf/mixture.h                  | 5 +++--
 5 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/orocos_bfl/src/filter/EKparticlefilter.cpp b/orocos_bfl/src/filter/EKparticlefilter.cpp
index 2b017ec..c9a11ce 100644
--- a/orocos_bfl/src/filter/EKparticlefilter.cpp
+++ b/orocos_bfl/src/filter/EKparticlefilter.cpp
@@ -94,7 +94,7 @@ namespace BFL
 
     for ( int i = 0; i < numsamples ; i++)
       {
-	while ( _unif_samples[i] > *_CumPDFit )
+	while ( index < (unsigned int)numsamples && (_unif_samples[i] > *_CumPDFit || *_CumPDFit <= 0.0) )
 	  {
 	    assert(index <= (unsigned int)numsamples);
 	    index++; _oit++; _CumPDFit++; _cov_it++;
diff --git a/orocos_bfl/src/pdf/discreteconditionalpdf.cpp b/orocos_bfl/src/pdf/discreteconditionalpdf.cpp
index 250710e..8860ce9 100644
--- a/orocos_bfl/src/pdf/discreteconditionalpdf.cpp
+++ b/orocos_bfl/src/pdf/discreteconditionalpdf.cpp
@@ -165,7 +165,7 @@ namespace BFL
     double unif_sample; unif_sample = runif();
     // Compare where we should be: THIS CAN BE MADE FASTER: TODO
     index = 0;
-    while ( unif_sample > _valuelist[index] )
+    while ( index < NumStatesGet() && (unif_sample > _valuelist[index] || _valuelist[index] <= 0.0) )
       {
 	assert(index <= NumStatesGet());
 	index++;
diff --git a/orocos_bfl/src/pdf/discretepdf.cpp b/orocos_bfl/src/pdf/discretepdf.cpp
index d47ebf3..ba5b4b3 100644
--- a/orocos_bfl/src/pdf/discretepdf.cpp
+++ b/orocos_bfl/src/pdf/discretepdf.cpp
@@ -138,6 +138,7 @@ namespace BFL
       case SampleMthd::RIPLEY: // See mcpdf.cpp for more explanation
 	  {
 	    list_samples.resize(num_samples);
+	    if (num_samples == 0) return true;
 	    // GENERATE N ORDERED IID UNIFORM SAMPLES
 	    std::vector<double> unif_samples(num_samples);
 	    for ( unsigned int i = 0; i < num_samples ; i++)
@@ -158,7 +159,7 @@ namespace BFL
 
 	    for ( unsigned int i = 0; i < num_samples ; i++)
 	      {
-	        while ( unif_samples[i] > *CumPDFit )
+	        while ( index < num_states && (unif_samples[i] > *CumPDFit || *CumPDFit <= 0.0) )
 	        {
 	  	// check for internal error
 	  	assert(index <= num_states);
@@ -188,7 +189,7 @@ namespace BFL
 	  double unif_sample; unif_sample = runif();
 	  // Compare where we should be
 	  unsigned int index = 0;
-	  while ( unif_sample > _CumPDF[index] )
+	  while ( index < NumStatesGet() && (unif_sample > _CumPDF[index] || _CumPDF[index] <= 0.0) )
 	    {
 	      assert(index <= NumStatesGet());
 	      index++;
diff --git a/orocos_bfl/src/pdf/mcpdf.h b/orocos_bfl/src/pdf/mcpdf.h
index e2390ff..37c8652 100644
--- a/orocos_bfl/src/pdf/mcpdf.h
+++ b/orocos_bfl/src/pdf/mcpdf.h
@@ -249,6 +249,7 @@ namespace BFL
 	  */
 	  // GENERATE N ORDERED IID UNIFORM SAMPLES
 	  {
+	    if (numsamples == 0) return true;
 	    std::vector<double> unif_samples(numsamples);
 	    for ( unsigned int i = 0; i < numsamples ; i++)
 	      unif_samples[i] = runif();
@@ -271,7 +272,7 @@ namespace BFL
 
 	    for ( unsigned int i = 0; i < numsamples ; i++)
 	      {
-		while ( unif_samples[i] > *CumPDFit )
+		while ( index < size && (unif_samples[i] > *CumPDFit || *CumPDFit <= 0.0) )
 		  {
 		    assert(index <= size);
 		    index++; it++; CumPDFit++;
@@ -308,7 +309,7 @@ namespace BFL
 	    typename vector<double>::const_iterator CumPDFit;
 	    CumPDFit = _CumPDF.begin();
 
-	    while ( unif_sample > *CumPDFit )
+	    while ( index < size && (unif_sample > *CumPDFit || *CumPDFit <= 0.0) )
 	      {
 		// check for internal error
 		assert(index <= size);
diff --git a/orocos_bfl/src/pdf/mixture.h b/orocos_bfl/src/pdf/mixture.h
index d43118f..ce3345b 100644
--- a/orocos_bfl/src/pdf/mixture.h
+++ b/orocos_bfl/src/pdf/mixture.h
@@ -297,6 +297,7 @@ template<typename T>
       case SampleMthd::RIPLEY: // See mcpdf.cpp for more explanation
 	  {
 	    list_samples.resize(num_samples);
+	    if (num_samples == 0) return true;
 	    // GENERATE N ORDERED IID UNIFORM SAMPLES
 	    std::vector<double> unif_samples(num_samples);
 	    for ( unsigned int i = 0; i < num_samples ; i++)
@@ -317,7 +318,7 @@ template<typename T>
 
 	    for ( unsigned int i = 0; i < num_samples ; i++)
 	      {
-	        while ( unif_samples[i] > *CumPDFit )
+	        while ( index < num_states && (unif_samples[i] > *CumPDFit || *CumPDFit <= 0.0) )
 	        {
 	  	// check for internal error
 	  	assert(index <= num_states);
@@ -347,7 +348,7 @@ template<typename T>
 	  double unif_sample; unif_sample = runif();
 	  // Compare where we should be
 	  unsigned int index = 0;
-	  while ( unif_sample > _cumWeights[index] )
+	  while ( index < NumComponentsGet() && (unif_sample > _cumWeights[index] || _cumWeights[index] <= 0.0) )
 	    {
 	      assert(index <= NumComponentsGet());
 	      index++;
-- 
2.43.0


From 917073178bfa404d486011130e5d2c5917eb0e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:31:14 +0000
Subject: [PATCH 02/34] fix: Mixture::SampleFrom with RIPLEY really draws from
 its components

Every component was asked for a single RIPLEY sample, which no pdf supports;
the failure was ignored and the caller got unset samples and a true result.
---
 orocos_bfl/src/pdf/mixture.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/orocos_bfl/src/pdf/mixture.h b/orocos_bfl/src/pdf/mixture.h
index ce3345b..0f36ed4 100644
--- a/orocos_bfl/src/pdf/mixture.h
+++ b/orocos_bfl/src/pdf/mixture.h
@@ -326,7 +326,10 @@ template<typename T>
 	        }
           // index-1 is a sample of the discrete pdf of the mixture weights
           // get a sample from the index-1'th mixture component
-	      (*_componentPdfs)[index-1]->SampleFrom(*sit,method,args);
+          // (RIPLEY only orders the draws over the components, a single
+          // sample of a component is drawn with its default method)
+	      if (!(*_componentPdfs)[index-1]->SampleFrom(*sit,SampleMthd::DEFAULT,args))
+	        return false;
 	      sit++;
 	      }
 	    return true;
@@ -355,8 +358,7 @@ template<typename T>
 	    }
          // index-1 is a sample of the discrete pdf of the mixture weights
       // get a sample from the index-1'th mixture component
-	  (*_componentPdfs)[index-1]->SampleFrom(one_sample,method,args);
-	  return true;
+	  return (*_componentPdfs)[index-1]->SampleFrom(one_sample,method,args);
 	}
       default:
 	cerr << "Mixture::Samplefrom(T, void *): No such sampling method"
-- 
2.43.0


From 4f449da17cba92c847696607b623028da211a221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:31:39 +0000
Subject: [PATCH 03/34] fix: Mixture::ComponentsGet can be instantiated and an
 empty mixture copied

ComponentsGet returned the pointer to the vector, which does not compile as
soon as it is used; copying (or cloning) a mixture without components aborted.
---
 orocos_bfl/src/pdf/mixture.h | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/orocos_bfl/src/pdf/mixture.h b/orocos_bfl/src/pdf/mixture.h
index 0f36ed4..d362522 100644
--- a/orocos_bfl/src/pdf/mixture.h
+++ b/orocos_bfl/src/pdf/mixture.h
@@ -228,9 +228,8 @@ Mixture<T>::Mixture(const Mixture & my_mixture):Pdf<T>(my_mixture.DimensionGet()
   {
     //create pointer to vector of component weights
     _componentWeights = new vector<Probability>(this->NumComponentsGet());
-    (*_componentWeights) = my_mixture.WeightsGet();
-    _cumWeights.insert(_cumWeights.begin(),NumComponentsGet()+1,0.0);
-    CumWeightsUpdate();
+    (*_componentWeights) = *(my_mixture._componentWeights);
+    _cumWeights = my_mixture._cumWeights;
 
     //create pointer to vector of pointers to weights
     _componentPdfs = new vector< Pdf<T>* >(NumComponentsGet());
@@ -536,7 +535,7 @@ template<typename T>
   vector<Pdf<T>*> Mixture<T>::ComponentsGet() const
   {
     TestNotInit();
-    return _componentPdfs;
+    return *_componentPdfs;
   }
 
 template<typename T>
-- 
2.43.0


From f31f1a30c439ddcf82727150f7a88855d2c938b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:52 +0000
Subject: [PATCH 04/34] fix: assigning DiscretePdf, Mixture and
 DiscreteConditionalPdf copies their contents

The implicit assignment operators copied the owning pointers: both objects then
shared (and freed twice) the same tables.  DiscreteConditionalPdf now also frees
its tables.
---
 orocos_bfl/src/pdf/discreteconditionalpdf.cpp | 22 +++++++++++++++++--
 orocos_bfl/src/pdf/discreteconditionalpdf.h   |  2 ++
 orocos_bfl/src/pdf/discretepdf.cpp            | 12 ++++++++++
 orocos_bfl/src/pdf/discretepdf.h              |  3 +++
 orocos_bfl/src/pdf/mixture.h                  | 18 +++++++++++++++
 5 files changed, 55 insertions(+), 2 deletions(-)

diff --git a/orocos_bfl/src/pdf/discreteconditionalpdf.cpp b/orocos_bfl/src/pdf/discreteconditionalpdf.cpp
index 8860ce9..43f2cb9 100644
--- a/orocos_bfl/src/pdf/discreteconditionalpdf.cpp
+++ b/orocos_bfl/src/pdf/discreteconditionalpdf.cpp
@@ -19,6 +19,7 @@
 #include "discreteconditionalpdf.h"
 #include "../wrappers/rng/rng.h"
 #include <vector>
+#include <algorithm>
 #include <iostream>
 
 namespace BFL
@@ -53,8 +54,8 @@ namespace BFL
 #ifdef __DCPDFDEBUG__
     cout << "DCPdf Destructor:" << endl;
 #endif // __DCPDFDEBUG__
-    //delete _probability_p;
-    //delete _cond_arg_dims_p;
+    delete [] _probability_p;
+    delete [] _cond_arg_dims_p;
   }
 
 
@@ -80,6 +81,23 @@ namespace BFL
       }
   }
 
+  DiscreteConditionalPdf&
+  DiscreteConditionalPdf::operator=(const DiscreteConditionalPdf & pdf)
+  {
+    if (this != &pdf)
+      {
+	DiscreteConditionalPdf copy(pdf);
+	ConditionalPdf<int,int>::operator=(pdf);
+	_num_states = pdf._num_states;
+	_total_dimension = pdf._total_dimension;
+	_probs = pdf._probs;
+	_valuelist = pdf._valuelist;
+	std::swap(_probability_p,copy._probability_p);
+	std::swap(_cond_arg_dims_p,copy._cond_arg_dims_p);
+      }
+    return *this;
+  }
+
   //Clone function
   DiscreteConditionalPdf* DiscreteConditionalPdf::Clone() const
   {
diff --git a/orocos_bfl/src/pdf/discreteconditionalpdf.h b/orocos_bfl/src/pdf/discreteconditionalpdf.h
index 3f743d0..7187da6 100644
--- a/orocos_bfl/src/pdf/discreteconditionalpdf.h
+++ b/orocos_bfl/src/pdf/discreteconditionalpdf.h
@@ -92,6 +92,8 @@ namespace BFL
 			     int cond_arg_dimensions[] = NULL);
       /// Copy constructor
       DiscreteConditionalPdf(const DiscreteConditionalPdf & pdf);
+      /// Assignment operator
+      DiscreteConditionalPdf& operator=(const DiscreteConditionalPdf & pdf);
       /// Destructor
       virtual ~DiscreteConditionalPdf();
 
diff --git a/orocos_bfl/src/pdf/discretepdf.cpp b/orocos_bfl/src/pdf/discretepdf.cpp
index ba5b4b3..d6bbdc4 100644
--- a/orocos_bfl/src/pdf/discretepdf.cpp
+++ b/orocos_bfl/src/pdf/discretepdf.cpp
@@ -56,6 +56,18 @@ namespace BFL
 #endif // __CONSTRUCTOR__
   }
 
+  DiscretePdf& DiscretePdf::operator=(const DiscretePdf & my_dpdf)
+  {
+    if (this != &my_dpdf)
+    {
+        Pdf<int>::operator=(my_dpdf);
+        _num_states = my_dpdf._num_states;
+        *_Values_p = *(my_dpdf._Values_p);
+        _CumPDF = my_dpdf._CumPDF;
+    }
+    return *this;
+  }
+
   DiscretePdf::~DiscretePdf()
   {
 #ifdef __CONSTRUCTOR__
diff --git a/orocos_bfl/src/pdf/discretepdf.h b/orocos_bfl/src/pdf/discretepdf.h
index 92d55c9..2c17c02 100644
--- a/orocos_bfl/src/pdf/discretepdf.h
+++ b/orocos_bfl/src/pdf/discretepdf.h
@@ -58,6 +58,9 @@ namespace BFL
       /// Copy Constructor
       DiscretePdf(const DiscretePdf &);
 
+      /// Assignment operator
+      DiscretePdf& operator=(const DiscretePdf &);
+
       /// Destructor
       virtual ~DiscretePdf();
 
diff --git a/orocos_bfl/src/pdf/mixture.h b/orocos_bfl/src/pdf/mixture.h
index d362522..5f27471 100644
--- a/orocos_bfl/src/pdf/mixture.h
+++ b/orocos_bfl/src/pdf/mixture.h
@@ -87,6 +87,9 @@ namespace BFL
 
       Mixture(const Mixture & my_mixture);
 
+      /// Assignment operator: takes a copy of the components
+      Mixture& operator=(const Mixture & my_mixture);
+
       /// Destructor
       virtual ~Mixture();
 
@@ -242,6 +245,21 @@ Mixture<T>::Mixture(const Mixture & my_mixture):Pdf<T>(my_mixture.DimensionGet()
 #endif // __CONSTRUCTOR__
   }
 
+template<typename T>
+  Mixture<T>& Mixture<T>::operator=(const Mixture & my_mixture)
+  {
+    if (this != &my_mixture)
+    {
+        Mixture<T> copy(my_mixture);
+        Pdf<T>::operator=(my_mixture);
+        std::swap(_numComponents,copy._numComponents);
+        std::swap(_componentWeights,copy._componentWeights);
+        std::swap(_componentPdfs,copy._componentPdfs);
+        _cumWeights.swap(copy._cumWeights);
+    }
+    return *this;
+  }
+
 template<typename T>
   Mixture<T>::~Mixture()
   {
-- 
2.43.0


From 49e6d2067e52a65740b943f1e6b6e8b4d3258333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:45 +0000
Subject: [PATCH 05/34] fix: Reset copies the prior instead of adopting it as
 the posterior

Filter::Reset and BackwardFilter::Reset made the posterior point to the caller's
prior: the old posterior leaked, the next update modified the caller's prior and
the destructor freed it.  The particle filters also kept sample lists sized for
the previous prior.
---
 orocos_bfl/src/filter/EKparticlefilter.cpp      | 11 +++++++++++
 orocos_bfl/src/filter/EKparticlefilter.h        |  3 +++
 orocos_bfl/src/filter/histogramfilter.cpp       | 11 +++++++++++
 orocos_bfl/src/filter/histogramfilter.h         |  3 +++
 orocos_bfl/src/filter/kalmanfilter.cpp          |  8 ++++++++
 orocos_bfl/src/filter/kalmanfilter.h            |  3 +++
 orocos_bfl/src/filter/mixtureParticleFilter.cpp | 14 ++++++++++++++
 orocos_bfl/src/filter/mixtureParticleFilter.h   |  3 +++
 orocos_bfl/src/filter/particlefilter.cpp        | 10 ++++++++++
 orocos_bfl/src/filter/particlefilter.h          |  3 +++
 orocos_bfl/src/pdf/filterproposaldensity.cpp    |  5 ++++-
 orocos_bfl/src/smoother/particlesmoother.cpp    |  8 ++++++++
 orocos_bfl/src/smoother/particlesmoother.h      |  2 ++
 orocos_bfl/src/smoother/rauchtungstriebel.cpp   |  8 ++++++++
 orocos_bfl/src/smoother/rauchtungstriebel.h     |  3 +++
 15 files changed, 94 insertions(+), 1 deletion(-)

diff --git a/orocos_bfl/src/filter/EKparticlefilter.cpp b/orocos_bfl/src/filter/EKparticlefilter.cpp
index c9a11ce..ffe029f 100644
--- a/orocos_bfl/src/filter/EKparticlefilter.cpp
+++ b/orocos_bfl/src/filter/EKparticlefilter.cpp
@@ -51,6 +51,17 @@ namespace BFL
     delete _proposal;
   }
 
+  void
+  EKParticleFilter::Reset(Pdf<CV> * prior)
+  {
+    ParticleFilter<CV,CV>::Reset(prior);
+    unsigned int num_samples = dynamic_cast<MCPdf<CV> *>(this->_post)->NumSamplesGet();
+    _sampleCov.assign(num_samples,this->_post->CovarianceGet());
+    _tmpCov = _sampleCov;
+    _result_samples.assign(num_samples,WeightedSample<ColumnVector>(_dimension));
+    _unif_samples.assign(num_samples,0.0);
+  }
+
   // KG: 20040702:  This method will be exactly the same for.  Extra
   // class between?
   bool
diff --git a/orocos_bfl/src/filter/EKparticlefilter.h b/orocos_bfl/src/filter/EKparticlefilter.h
index bf8b364..4ca7339 100644
--- a/orocos_bfl/src/filter/EKparticlefilter.h
+++ b/orocos_bfl/src/filter/EKparticlefilter.h
@@ -91,6 +91,9 @@ namespace BFL
 
       /// Destructor
       virtual ~EKParticleFilter();
+
+      // implement virtual function
+      virtual void Reset(Pdf<ColumnVector> * prior);
     };
 
 } // End namespace BFL
diff --git a/orocos_bfl/src/filter/histogramfilter.cpp b/orocos_bfl/src/filter/histogramfilter.cpp
index c3f47ce..0cb9d21 100644
--- a/orocos_bfl/src/filter/histogramfilter.cpp
+++ b/orocos_bfl/src/filter/histogramfilter.cpp
@@ -37,6 +37,17 @@
     delete this->_post;
   }
 
+  template <typename MeasVar>
+  void
+  HistogramFilter<MeasVar>::Reset(Pdf<int>* prior)
+  {
+    this->_prior = prior;
+    // the posterior belongs to the filter: copy the contents of the prior
+    *(dynamic_cast<DiscretePdf *>(this->_post)) = *(dynamic_cast<DiscretePdf *>(prior));
+    _old_prob = ( (DiscretePdf*)this->_post )->ProbabilitiesGet();
+    _new_prob = _old_prob;
+  }
+
   template <typename MeasVar>
   void
   HistogramFilter<MeasVar>::SysUpdate(SystemModel<int>* const sysmodel, const int& u)
diff --git a/orocos_bfl/src/filter/histogramfilter.h b/orocos_bfl/src/filter/histogramfilter.h
index 5992b08..0c5a1a5 100644
--- a/orocos_bfl/src/filter/histogramfilter.h
+++ b/orocos_bfl/src/filter/histogramfilter.h
@@ -58,6 +58,9 @@ public:
   /// Destructor
   virtual ~HistogramFilter();
 
+  // implement virtual function
+  virtual void Reset(Pdf<int>* prior);
+
   // implement virtual function
   virtual DiscretePdf* PostGet();
 
diff --git a/orocos_bfl/src/filter/kalmanfilter.cpp b/orocos_bfl/src/filter/kalmanfilter.cpp
index 04b11ed..6c3fc0b 100644
--- a/orocos_bfl/src/filter/kalmanfilter.cpp
+++ b/orocos_bfl/src/filter/kalmanfilter.cpp
@@ -41,6 +41,14 @@ namespace BFL
     delete _post;
   }
 
+  void
+  KalmanFilter::Reset(Pdf<ColumnVector>* prior)
+  {
+    _prior = prior;
+    // the posterior belongs to the filter: copy the contents of the prior
+    *(dynamic_cast<Gaussian *>(_post)) = *(dynamic_cast<Gaussian *>(prior));
+  }
+
   void
   KalmanFilter::AllocateMeasModel(const vector<unsigned int>& meas_dimensions)
   {
diff --git a/orocos_bfl/src/filter/kalmanfilter.h b/orocos_bfl/src/filter/kalmanfilter.h
index 8c62f2e..edfb855 100644
--- a/orocos_bfl/src/filter/kalmanfilter.h
+++ b/orocos_bfl/src/filter/kalmanfilter.h
@@ -58,6 +58,9 @@ public:
   /// Destructor
   virtual ~KalmanFilter();
 
+  // implement virtual function
+  virtual void Reset(Pdf<MatrixWrapper::ColumnVector>* prior);
+
   // implement virtual function
   virtual Gaussian* PostGet();
 
diff --git a/orocos_bfl/src/filter/mixtureParticleFilter.cpp b/orocos_bfl/src/filter/mixtureParticleFilter.cpp
index 54e675a..54ba4ec 100644
--- a/orocos_bfl/src/filter/mixtureParticleFilter.cpp
+++ b/orocos_bfl/src/filter/mixtureParticleFilter.cpp
@@ -158,6 +158,20 @@ MixtureParticleFilter<SV,MV>::Reset(Mixture<SV> * prior)
     this->_post = prior->Clone();
     this->_newMixtureWeights.resize(dynamic_cast<Mixture<SV> *>(this->_post)->NumComponentsGet());
     this->_sumWeights.resize(dynamic_cast<Mixture<SV> *>(this->_post)->NumComponentsGet());
+    // Initialise vector of lists of samples
+    this->_old_samplesVec.resize(dynamic_cast<Mixture<SV> *>(this->_post)->NumComponentsGet());
+    this->_new_samples_unweightedVec.resize(dynamic_cast<Mixture<SV> *>(this->_post)->NumComponentsGet());
+    for(int i = 0 ; i< dynamic_cast<Mixture<SV> *>(this->_post)->NumComponentsGet(); i++)
+    {
+        this->_old_samplesVec[i] = (dynamic_cast<MCPdf<SV> *>(dynamic_cast<Mixture<SV> *>(this->_post)->ComponentGet(i))->ListOfSamplesGet());
+    }
+    this->_new_samplesVec = this->_old_samplesVec;
+}
+
+template <typename SV, typename MV> void
+MixtureParticleFilter<SV,MV>::Reset(Pdf<SV> * prior)
+{
+    this->Reset(dynamic_cast<Mixture<SV> *>(prior));
 }
 
 template <typename SV, typename MV> void
diff --git a/orocos_bfl/src/filter/mixtureParticleFilter.h b/orocos_bfl/src/filter/mixtureParticleFilter.h
index 011a142..c3da664 100644
--- a/orocos_bfl/src/filter/mixtureParticleFilter.h
+++ b/orocos_bfl/src/filter/mixtureParticleFilter.h
@@ -355,6 +355,9 @@ namespace BFL
       /// Reset Filter
       virtual void Reset(Mixture<StateVar> * prior);
 
+      // implement virtual function
+      virtual void Reset(Pdf<StateVar> * prior);
+
       /// Set the proposal density
       /** @param cpdf the new proposal density.  The order of the
 	  conditional arguments is fixed and should be: x (state), u
diff --git a/orocos_bfl/src/filter/particlefilter.cpp b/orocos_bfl/src/filter/particlefilter.cpp
index 335b0bc..5873f42 100644
--- a/orocos_bfl/src/filter/particlefilter.cpp
+++ b/orocos_bfl/src/filter/particlefilter.cpp
@@ -129,6 +129,16 @@ ParticleFilter<SV,MV>::ParticleFilter(const ParticleFilter<SV,MV> & filter)
   this->_post = new MCPdf<SV>(dynamic_cast<MCPdf<SV> *>(filter._post));
 }
 
+template <typename SV, typename MV> void
+ParticleFilter<SV,MV>::Reset(Pdf<SV> * prior)
+{
+  this->_prior = prior;
+  // the filter keeps its own posterior: copy the contents of the prior
+  *(dynamic_cast<MCPdf<SV> *>(this->_post)) = *(dynamic_cast<MCPdf<SV> *>(prior));
+  _old_samples = (dynamic_cast<MCPdf<SV> *>(this->_post))->ListOfSamplesGet();
+  _new_samples = _old_samples;
+}
+
 template <typename SV, typename MV> void
 ParticleFilter<SV,MV>::ProposalSet(ConditionalPdf<SV,SV> * const cpdf)
 {
diff --git a/orocos_bfl/src/filter/particlefilter.h b/orocos_bfl/src/filter/particlefilter.h
index 5ee0ce0..3a2afe6 100644
--- a/orocos_bfl/src/filter/particlefilter.h
+++ b/orocos_bfl/src/filter/particlefilter.h
@@ -308,6 +308,9 @@ namespace BFL
        */
       ConditionalPdf<StateVar,StateVar> * ProposalGet();
 
+      // implement virtual function
+      virtual void Reset(Pdf<StateVar> * prior);
+
       // implement virtual function
       virtual MCPdf<StateVar> * PostGet();
     };
diff --git a/orocos_bfl/src/pdf/filterproposaldensity.cpp b/orocos_bfl/src/pdf/filterproposaldensity.cpp
index 32bad3f..fda51ed 100644
--- a/orocos_bfl/src/pdf/filterproposaldensity.cpp
+++ b/orocos_bfl/src/pdf/filterproposaldensity.cpp
@@ -55,7 +55,10 @@ namespace BFL
     */
   }
 
-  FilterPropDens::~FilterPropDens(){}
+  FilterPropDens::~FilterPropDens()
+  {
+    delete _TmpPrior;
+  }
 
   // BUG Copy constructor not implemented yet
   FilterPropDens::FilterPropDens(const FilterPropDens & fpd){}
diff --git a/orocos_bfl/src/smoother/particlesmoother.cpp b/orocos_bfl/src/smoother/particlesmoother.cpp
index 43d9b43..e6a8e99 100644
--- a/orocos_bfl/src/smoother/particlesmoother.cpp
+++ b/orocos_bfl/src/smoother/particlesmoother.cpp
@@ -41,6 +41,14 @@ ParticleSmoother<SV>::~ParticleSmoother()
     delete this->_post;
 }
 
+template <typename SV> void
+ParticleSmoother<SV>::Reset(Pdf<SV> * prior)
+{
+  this->_prior = prior;
+  // the posterior belongs to the filter: copy the contents of the prior
+  *(dynamic_cast<MCPdf<SV> *>(this->_post)) = *(dynamic_cast<MCPdf<SV> *>(prior));
+}
+
 template <typename SV> bool
 ParticleSmoother<SV>::UpdateInternal(SystemModel<StateVar>* const sysmodel, const StateVar& u,Pdf<StateVar>* const  filtered_post)
 {
diff --git a/orocos_bfl/src/smoother/particlesmoother.h b/orocos_bfl/src/smoother/particlesmoother.h
index 8ca3023..3e28f39 100644
--- a/orocos_bfl/src/smoother/particlesmoother.h
+++ b/orocos_bfl/src/smoother/particlesmoother.h
@@ -76,6 +76,8 @@ namespace BFL
       /// Destructor
       virtual ~ParticleSmoother();
 
+      // implement virtual function
+      virtual void Reset(Pdf<StateVar> * prior);
     };
 #include "particlesmoother.cpp"
 
diff --git a/orocos_bfl/src/smoother/rauchtungstriebel.cpp b/orocos_bfl/src/smoother/rauchtungstriebel.cpp
index 2142169..0243dc9 100644
--- a/orocos_bfl/src/smoother/rauchtungstriebel.cpp
+++ b/orocos_bfl/src/smoother/rauchtungstriebel.cpp
@@ -47,6 +47,14 @@ namespace BFL
     delete _post;
   }
 
+  void
+  RauchTungStriebel::Reset(Pdf<ColumnVector>* prior)
+  {
+    _prior = prior;
+    // the posterior belongs to the filter: copy the contents of the prior
+    *(dynamic_cast<Gaussian *>(_post)) = *(dynamic_cast<Gaussian *>(prior));
+  }
+
   void
   RauchTungStriebel::SysUpdate(SystemModel<ColumnVector>* const sysmodel, const ColumnVector& u,  Pdf<ColumnVector>* const filtered_post)
   {
diff --git a/orocos_bfl/src/smoother/rauchtungstriebel.h b/orocos_bfl/src/smoother/rauchtungstriebel.h
index 52de535..d1e6f17 100644
--- a/orocos_bfl/src/smoother/rauchtungstriebel.h
+++ b/orocos_bfl/src/smoother/rauchtungstriebel.h
@@ -51,6 +51,9 @@ public:
   /// Destructor
   virtual ~RauchTungStriebel();
 
+  // implement virtual function
+  virtual void Reset(Pdf<MatrixWrapper::ColumnVector>* prior);
+
 protected:
 
   /// Set covariance of posterior estimate
-- 
2.43.0


From 4c542dcfd74161c1a19b7b8bad4ba86288c55fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:22 +0000
Subject: [PATCH 06/34] fix: EKParticleFilter weighs particles against their
 own predecessors

EKParticleFilter redeclared _old_samples: the weight update of the base class
kept comparing every new particle with the particles of the prior.
---
 orocos_bfl/src/filter/EKparticlefilter.h | 1 -
 1 file changed, 1 deletion(-)

diff --git a/orocos_bfl/src/filter/EKparticlefilter.h b/orocos_bfl/src/filter/EKparticlefilter.h
index 4ca7339..4ee34e8 100644
--- a/orocos_bfl/src/filter/EKparticlefilter.h
+++ b/orocos_bfl/src/filter/EKparticlefilter.h
@@ -46,7 +46,6 @@ namespace BFL
       // helper variables for resampleing to prevent memory allocation on the heap
       const int _dimension;
       const int _num_samples;
-      std::vector<WeightedSample<ColumnVector> > _old_samples;
       std::vector<WeightedSample<ColumnVector> >::iterator _oit;
       std::vector<WeightedSample<ColumnVector> > _result_samples;
       std::vector<WeightedSample<ColumnVector> >::iterator _rit;
-- 
2.43.0


From d56067d9e6905974c6288a030a0aa9df5095c221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:30 +0000
Subject: [PATCH 07/34] fix: EKParticleFilter resampling yields equally
 weighted particles

The resampled particles kept the weights they had been drawn with, so that these
weights counted twice.
---
 orocos_bfl/src/filter/EKparticlefilter.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/orocos_bfl/src/filter/EKparticlefilter.cpp b/orocos_bfl/src/filter/EKparticlefilter.cpp
index ffe029f..1e68232 100644
--- a/orocos_bfl/src/filter/EKparticlefilter.cpp
+++ b/orocos_bfl/src/filter/EKparticlefilter.cpp
@@ -112,7 +112,8 @@ namespace BFL
 
 	  }
 	_oit--; _cov_it--;
-	*(_rit) = *(_oit);
+	_rit->ValueSet(_oit->ValueGet());
+	_rit->WeightSet(1.0/numsamples);
     *_tmpCovit = *_cov_it;
 	_oit++; _cov_it++;
 
-- 
2.43.0


From 6276d4b416e3ae4a05f6abaa4bb5766035b14f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:23 +0000
Subject: [PATCH 08/34] fix: importance weights include system/proposal ratio
 with sensor parameters

For a measurement model with sensor parameters the weight update only used the
likelihood, so that the result depended on the proposal density.
---
 orocos_bfl/src/filter/mixtureParticleFilter.cpp | 11 ++++-------
 orocos_bfl/src/filter/particlefilter.cpp        | 11 ++++-------
 2 files changed, 8 insertions(+), 14 deletions(-)

diff --git a/orocos_bfl/src/filter/mixtureParticleFilter.cpp b/orocos_bfl/src/filter/mixtureParticleFilter.cpp
index 54ba4ec..ef28ecc 100644
--- a/orocos_bfl/src/filter/mixtureParticleFilter.cpp
+++ b/orocos_bfl/src/filter/mixtureParticleFilter.cpp
@@ -322,8 +322,10 @@ MixtureParticleFilter<SV,MV>::UpdateWeightsInternalOne(int component,SystemModel
 	{
       _proposal->ConditionalArgumentSet(0,x_old);
 	  if (measmodel->SystemWithoutSensorParams() == true)
-	    {
-	      weightfactor = measmodel->ProbabilityGet(z,x_new);
+	    weightfactor = measmodel->ProbabilityGet(z,x_new);
+	  else // System with sensor Parameters
+	    weightfactor = measmodel->ProbabilityGet(z,x_new,s);
+
 	      if (sysmodel->SystemWithoutInputs() == false)
 		{
 		  _proposal->ConditionalArgumentSet(1,u);
@@ -348,11 +350,6 @@ MixtureParticleFilter<SV,MV>::UpdateWeightsInternalOne(int component,SystemModel
 		    weightfactor = weightfactor * ( sysmodel->ProbabilityGet(x_new,_os_it->ValueGet()) / _proposal->ProbabilityGet(x_new) );
 		  else weightfactor = 0;
 		}
-	    }
-	  else // System with sensor Parameters
-	    {
-	      weightfactor = measmodel->ProbabilityGet(z,x_new,s);
-	    }
 	}
       double new_weight = _ns_it->WeightGet() * weightfactor;
       _ns_it->WeightSet(new_weight);
diff --git a/orocos_bfl/src/filter/particlefilter.cpp b/orocos_bfl/src/filter/particlefilter.cpp
index 5873f42..3cffbc4 100644
--- a/orocos_bfl/src/filter/particlefilter.cpp
+++ b/orocos_bfl/src/filter/particlefilter.cpp
@@ -237,8 +237,10 @@ ParticleFilter<SV,MV>::UpdateWeightsInternal(SystemModel<SV> * const sysmodel,
 	{
       _proposal->ConditionalArgumentSet(0,x_old);
 	  if (measmodel->SystemWithoutSensorParams() == true)
-	    {
-	      weightfactor = measmodel->ProbabilityGet(z,x_new);
+	    weightfactor = measmodel->ProbabilityGet(z,x_new);
+	  else // System with sensor Parameters
+	    weightfactor = measmodel->ProbabilityGet(z,x_new,s);
+
 	      if (sysmodel->SystemWithoutInputs() == false)
 		{
 		  _proposal->ConditionalArgumentSet(1,u);
@@ -263,11 +265,6 @@ ParticleFilter<SV,MV>::UpdateWeightsInternal(SystemModel<SV> * const sysmodel,
 		    weightfactor = weightfactor * ( sysmodel->ProbabilityGet(x_new,_os_it->ValueGet()) / _proposal->ProbabilityGet(x_new) );
 		  else weightfactor = 0;
 		}
-	    }
-	  else // System with sensor Parameters
-	    {
-	      weightfactor = measmodel->ProbabilityGet(z,x_new,s);
-	    }
 	}
       _ns_it->WeightSet(_ns_it->WeightGet() * weightfactor);
 
-- 
2.43.0


From 7176920c34aceac020f03d45755873f23e027303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:38 +0000
Subject: [PATCH 09/34] fix: particle filters initialise whether the proposal
 depends on the measurement

---
 orocos_bfl/src/filter/mixtureParticleFilter.cpp | 2 ++
 orocos_bfl/src/filter/particlefilter.cpp        | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/orocos_bfl/src/filter/mixtureParticleFilter.cpp b/orocos_bfl/src/filter/mixtureParticleFilter.cpp
index ef28ecc..6209b19 100644
--- a/orocos_bfl/src/filter/mixtureParticleFilter.cpp
+++ b/orocos_bfl/src/filter/mixtureParticleFilter.cpp
@@ -36,6 +36,7 @@ MixtureParticleFilter<SV,MV>::MixtureParticleFilter(Mixture<SV> * prior,
   , _proposal(proposal)
   , _sample(WeightedSample<SV>(prior->DimensionGet()))
   , _resampleScheme(resamplescheme)
+  , _proposal_depends_on_meas(false)
   , _created_post(true)
   , _newMixtureWeights(prior->NumComponentsGet())
   , _sumWeights(prior->NumComponentsGet())
@@ -87,6 +88,7 @@ MixtureParticleFilter<SV,MV>::MixtureParticleFilter(Mixture<SV> * prior,
   : Filter<SV,MV>(prior)
   ,  _proposal(proposal)
   ,  _resampleScheme(resamplescheme)
+  ,  _proposal_depends_on_meas(false)
   ,  _created_post(false)
   , _newMixtureWeights(prior->NumComponentsGet())
   , _sumWeights(prior->NumComponentsGet())
diff --git a/orocos_bfl/src/filter/particlefilter.cpp b/orocos_bfl/src/filter/particlefilter.cpp
index 3cffbc4..197b2dc 100644
--- a/orocos_bfl/src/filter/particlefilter.cpp
+++ b/orocos_bfl/src/filter/particlefilter.cpp
@@ -35,6 +35,7 @@ ParticleFilter<SV,MV>::ParticleFilter(MCPdf<SV> * prior,
   , _proposal(proposal)
   , _sample(WeightedSample<SV>(prior->DimensionGet()))
   , _resampleScheme(resamplescheme)
+  , _proposal_depends_on_meas(false)
   , _created_post(true)
 {
   /* Initialize Post, at time = 0, post = prior
@@ -80,6 +81,7 @@ ParticleFilter<SV,MV>::ParticleFilter(MCPdf<SV> * prior,
   : Filter<SV,MV>(prior),
     _proposal(proposal),
     _resampleScheme(resamplescheme),
+    _proposal_depends_on_meas(false),
     _created_post(false)
 {
   this->_post = post;
-- 
2.43.0


From ea86025db1be2a353547acfc07610e9950dfa94a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:09 +0000
Subject: [PATCH 10/34] fix: MixtureParticleFilter counts one timestep per
 update

The timestep was incremented once per mixture component, which also disturbed
fixed period resampling.
---
 orocos_bfl/src/filter/mixtureParticleFilter.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/orocos_bfl/src/filter/mixtureParticleFilter.cpp b/orocos_bfl/src/filter/mixtureParticleFilter.cpp
index 6209b19..d166697 100644
--- a/orocos_bfl/src/filter/mixtureParticleFilter.cpp
+++ b/orocos_bfl/src/filter/mixtureParticleFilter.cpp
@@ -201,6 +201,7 @@ MixtureParticleFilter<SV,MV>::ProposalStepInternal(SystemModel<SV> * const sysmo
     {
         result = result && this->ProposalStepInternalOne(i,sysmodel,u,measmodel,z,s);
     }
+    (this->_timestep)++;
     return result;
 }
 
@@ -253,8 +254,6 @@ MixtureParticleFilter<SV,MV>::ProposalStepInternalOne(int component, SystemModel
       _ns_it++;
     }
 
-  (this->_timestep)++;
-
   // Update the list of samples
   return (dynamic_cast<MCPdf<SV> *>(dynamic_cast<Mixture<SV> *>(this->_post)->ComponentGet(component)))->ListOfSamplesUpdate(_new_samplesVec[component]);
 
-- 
2.43.0


From cdcf35eb4e596eb06c5b67029ee695acf8779a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:22 +0000
Subject: [PATCH 11/34] fix: MixtureParticleFilter respects the mixture
 maintenance period

---
 orocos_bfl/src/filter/mixtureParticleFilter.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/orocos_bfl/src/filter/mixtureParticleFilter.cpp b/orocos_bfl/src/filter/mixtureParticleFilter.cpp
index d166697..862a59c 100644
--- a/orocos_bfl/src/filter/mixtureParticleFilter.cpp
+++ b/orocos_bfl/src/filter/mixtureParticleFilter.cpp
@@ -448,7 +448,7 @@ MixtureParticleFilter<SV,MV>::UpdateInternal(SystemModel<StateVar>* const sysmod
 
   // Mixture Computation: recompute mixture representation to take into account
   // possibly varying number of modes.
-  result = result && this->MaintainMixture();
+  result = result && this->MaintainMixtureStep();
 
   return result;
 }
@@ -519,8 +519,8 @@ MixtureParticleFilter<SV,MV>::PostGet()
 template <typename SV, typename MV> bool
 MixtureParticleFilter<SV,MV>::MaintainMixtureStep()
 {
-  // Resampling if necessary
-  if ( (((this->_timestep) % _maintainMixturePeriod) == 0) && (this->_timestep != 0))
+  // Maintain the mixture if necessary
+  if ( (_maintainMixturePeriod > 0) && (((this->_timestep) % _maintainMixturePeriod) == 0) && (this->_timestep != 0))
     return this->MaintainMixture();
   return true;
 }
-- 
2.43.0


From 9e2c0e986895180e4ff601035db8a485b77231d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:29 +0000
Subject: [PATCH 12/34] fix: ParticleSmoother computes the backward weights of
 Isard and Blake

The correction factors were stored per filtered instead of per smoothed sample,
the transition probabilities were read transposed (out of bounds when the number
of samples differs) and the sum of the weights was not initialised.
---
 orocos_bfl/src/smoother/particlesmoother.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/orocos_bfl/src/smoother/particlesmoother.cpp b/orocos_bfl/src/smoother/particlesmoother.cpp
index e6a8e99..2788c3e 100644
--- a/orocos_bfl/src/smoother/particlesmoother.cpp
+++ b/orocos_bfl/src/smoother/particlesmoother.cpp
@@ -87,10 +87,10 @@ ParticleSmoother<SV>::SysUpdate(SystemModel<StateVar>* const sysmodel, const Sta
                 prob(i,j) = sysmodel->ProbabilityGet(x_smo,x_fil);
               }
               gamma_loc = gamma_loc + _fs_it->WeightGet() * prob(i,j);
-              // calculate correction factors
-              gamma[j-1] = gamma_loc;
               j++;
              }
+      // calculate correction factors
+      gamma[i-1] = gamma_loc;
       i++;
       }
       //cout << "probabilities " << prob << endl;
@@ -98,7 +98,7 @@ ParticleSmoother<SV>::SysUpdate(SystemModel<StateVar>* const sysmodel, const Sta
       _new_samples = _filtered_samples;
       // new weights for filtered samples
       i = 1 ;
-      double tot_weight; // sum of weights needed to normalize
+      double tot_weight = 0.0; // sum of weights needed to normalize
       vector<double> weight (_new_samples.size()); // vector of weights of particles
       for ( _ns_it=_new_samples.begin(); _ns_it != _new_samples.end() ; _ns_it++)
         {
@@ -107,7 +107,7 @@ ParticleSmoother<SV>::SysUpdate(SystemModel<StateVar>* const sysmodel, const Sta
           for (_os_it = _old_samples.begin(); _os_it !=_old_samples.end() ; _os_it++)
           {
               if (gamma[j-1]!=0){
-                  delta = delta + _os_it->WeightGet() * prob(i,j) / gamma[j-1];
+                  delta = delta + _os_it->WeightGet() * prob(j,i) / gamma[j-1];
               }
               else{}
               j++;
-- 
2.43.0


From 4bc7be930d965f0369fbb5f447772e21c10f5c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:35 +0000
Subject: [PATCH 13/34] fix: RauchTungStriebel linearises the system model at
 the filtered estimate

The predicted covariance and the smoother gain have to be those of the forward
filter step, which starts from the filtered (not from the smoothed) state.
---
 orocos_bfl/src/smoother/rauchtungstriebel.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/orocos_bfl/src/smoother/rauchtungstriebel.cpp b/orocos_bfl/src/smoother/rauchtungstriebel.cpp
index 0243dc9..2ab65ef 100644
--- a/orocos_bfl/src/smoother/rauchtungstriebel.cpp
+++ b/orocos_bfl/src/smoother/rauchtungstriebel.cpp
@@ -60,8 +60,8 @@ namespace BFL
   {
     _x = _post->ExpectedValueGet();
     _xf = filtered_post->ExpectedValueGet();
-    _F = ((AnalyticSys*)sysmodel)->df_dxGet(u,_x);
-    _Q = ((AnalyticSys*)sysmodel)->CovarianceGet(u,_x);
+    _F = ((AnalyticSys*)sysmodel)->df_dxGet(u,_xf);
+    _Q = ((AnalyticSys*)sysmodel)->CovarianceGet(u,_xf);
 
     _Ppred = _F * (Matrix)filtered_post->CovarianceGet() * _F.transpose() + (Matrix)_Q;
     _Pxx = (Matrix)filtered_post->CovarianceGet() * _F.transpose();
-- 
2.43.0


From ae90d0d4b0265810d7d9e6f73e86f4a3abcca32e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:16 +0000
Subject: [PATCH 14/34] fix: HistogramFilter::Update reports a measurement that
 is impossible in every state

---
 orocos_bfl/src/filter/histogramfilter.cpp | 15 ++++++++-------
 orocos_bfl/src/filter/histogramfilter.h   |  4 ++--
 2 files changed, 10 insertions(+), 9 deletions(-)

diff --git a/orocos_bfl/src/filter/histogramfilter.cpp b/orocos_bfl/src/filter/histogramfilter.cpp
index 0cb9d21..7a3c7ea 100644
--- a/orocos_bfl/src/filter/histogramfilter.cpp
+++ b/orocos_bfl/src/filter/histogramfilter.cpp
@@ -49,7 +49,7 @@
   }
 
   template <typename MeasVar>
-  void
+  bool
   HistogramFilter<MeasVar>::SysUpdate(SystemModel<int>* const sysmodel, const int& u)
   {
     bool without_inputs = sysmodel->SystemWithoutInputs();
@@ -75,11 +75,11 @@
         }
        _new_prob[to_state] = temp;
     }
-    ( (DiscretePdf*)this->_post )->ProbabilitiesSet(_new_prob);
+    return ( (DiscretePdf*)this->_post )->ProbabilitiesSet(_new_prob);
   }
 
   template <typename MeasVar>
-  void
+  bool
   HistogramFilter<MeasVar>::MeasUpdate(MeasurementModel<MeasVar,int>* const measmodel, const MeasVar& z, const int& s)
   {
       int num_states = ( (DiscretePdf*)this->_post )->NumStatesGet();
@@ -90,7 +90,7 @@
           else _old_prob[state] = _old_prob[state] * measmodel->ProbabilityGet(z,state,s);
           _old_prob[state] = (Probability)((double)( _old_prob[state]) );
       }
-      ( (DiscretePdf*)this->_post )->ProbabilitiesSet(_old_prob);
+      return ( (DiscretePdf*)this->_post )->ProbabilitiesSet(_old_prob);
   }
 
   template <typename MeasVar>
@@ -100,9 +100,10 @@
 			       MeasurementModel<MeasVar,int>* const measmodel,
 			       const MeasVar& z, const int& s)
   {
-    if (sysmodel != NULL) 	SysUpdate(sysmodel,u);
-    if (measmodel != NULL)	MeasUpdate(measmodel,z,s);
-    return true;
+    bool result = true;
+    if (sysmodel != NULL) 	result = SysUpdate(sysmodel,u) && result;
+    if (measmodel != NULL)	result = MeasUpdate(measmodel,z,s) && result;
+    return result;
   }
 
   template <typename MeasVar>
diff --git a/orocos_bfl/src/filter/histogramfilter.h b/orocos_bfl/src/filter/histogramfilter.h
index 0c5a1a5..efcb70b 100644
--- a/orocos_bfl/src/filter/histogramfilter.h
+++ b/orocos_bfl/src/filter/histogramfilter.h
@@ -74,7 +74,7 @@ protected:
     @param sysmodel pointer to the system model the filter should use
     @param u input to the system
   */
-  void SysUpdate(SystemModel<int>* const sysmodel,
+  bool SysUpdate(SystemModel<int>* const sysmodel,
 			 const int& u);
 
   /// Measurement Update
@@ -86,7 +86,7 @@ protected:
       @param s input to the system (must be of the same type as u
       for now, since this was not yet implemented in ConditionalPdf
   */
-  void MeasUpdate(MeasurementModel<MeasVar,int>* const measmodel,
+  bool MeasUpdate(MeasurementModel<MeasVar,int>* const measmodel,
 			  const MeasVar& z,
 			  const int& s);
 
-- 
2.43.0


From 68055a300d23418ac478fb9a647ff6abeead2bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:40 +0000
Subject: [PATCH 15/34] fix: setting one probability keeps the others
 normalised

The remaining probabilities were scaled by 1/(1-old), which aborts for a single
state, and goes wrong by rounding when the old probability is close to one.
Scale them by their actual sum instead.
---
 orocos_bfl/src/pdf/discretepdf.cpp | 21 ++++++++++-----------
 orocos_bfl/src/pdf/mixture.h       | 21 ++++++++++-----------
 2 files changed, 20 insertions(+), 22 deletions(-)

diff --git a/orocos_bfl/src/pdf/discretepdf.cpp b/orocos_bfl/src/pdf/discretepdf.cpp
index d6bbdc4..b9537f2 100644
--- a/orocos_bfl/src/pdf/discretepdf.cpp
+++ b/orocos_bfl/src/pdf/discretepdf.cpp
@@ -103,19 +103,18 @@ namespace BFL
     // renormalize other probabilities such that sum of probabilities will be
     // one after the probability of state is set to a
     // This should keep the probabilities normalized
-    Probability old_prob_state = ProbabilityGet(state);
-    if (old_prob_state!=1) {
-        double normalization_factor = (1-a)/(1-old_prob_state);
-        for (int i=0; i<NumStatesGet();i++)
-        {
-            (*_Values_p)[i] = (Probability)( (double)( (*_Values_p)[i] )* normalization_factor);
-        }
+    double sum_others = 0.0;
+    for (int i=0; i<NumStatesGet();i++)
+    {
+        if (i != state) sum_others += (*_Values_p)[i];
     }
-    else{
-        for (int i=0; i<NumStatesGet();i++)
-        {
+    for (int i=0; i<NumStatesGet();i++)
+    {
+        if (i == state) continue;
+        if (sum_others > 0)
+            (*_Values_p)[i] = (Probability)( (double)( (*_Values_p)[i] ) / sum_others * (1-a) );
+        else
             (*_Values_p)[i] = (Probability)( (1-a)/(NumStatesGet()-1));
-        }
     }
     (*_Values_p)[state] = a;
     return CumPDFUpdate();
diff --git a/orocos_bfl/src/pdf/mixture.h b/orocos_bfl/src/pdf/mixture.h
index 5f27471..513eb35 100644
--- a/orocos_bfl/src/pdf/mixture.h
+++ b/orocos_bfl/src/pdf/mixture.h
@@ -447,19 +447,18 @@ template<typename T>
         // renormalize other weights such that sum of probabilities will be
         // one after the weight of the component is set to weight
         // This should keep the probabilities normalized
-        Probability old_weight = WeightGet(componentNumber);
-        if ((double)old_weight!=1.0) {
-            double normalization_factor = (1-weight)/(1-old_weight);
-            for (int i=0; i<NumComponentsGet();i++)
-            {
-                (*_componentWeights)[i] = (Probability)( (double)( (*_componentWeights)[i] )* normalization_factor);
-            }
+        double sum_others = 0.0;
+        for (int i=0; i<NumComponentsGet();i++)
+        {
+            if (i != componentNumber) sum_others += (*_componentWeights)[i];
         }
-        else{
-            for (int i=0; i<NumComponentsGet();i++)
-            {
+        for (int i=0; i<NumComponentsGet();i++)
+        {
+            if (i == componentNumber) continue;
+            if (sum_others > 0)
+                (*_componentWeights)[i] = (Probability)( (double)( (*_componentWeights)[i] ) / sum_others * (1-weight) );
+            else
                 (*_componentWeights)[i] = (Probability)( (1-weight)/(NumComponentsGet()-1));
-            }
         }
         (*_componentWeights)[componentNumber] = weight;
     }
-- 
2.43.0


From adb055aa89dbf72b8ff77ba16bf05fd11aa155b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:01 +0000
Subject: [PATCH 16/34] fix: covariance of MCPdf<unsigned int> does not
 overflow

The squared distance to the mean was computed in 32 bit arithmetic.
---
 orocos_bfl/src/pdf/mcpdf.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/orocos_bfl/src/pdf/mcpdf.cpp b/orocos_bfl/src/pdf/mcpdf.cpp
index a6e4891..1263606 100644
--- a/orocos_bfl/src/pdf/mcpdf.cpp
+++ b/orocos_bfl/src/pdf/mcpdf.cpp
@@ -130,7 +130,7 @@ namespace BFL
   SymmetricMatrix MCPdf<unsigned int>::CovarianceGet (  ) const
   {
     unsigned int mean = this->ExpectedValueGet();
-    unsigned int diff;
+    double diff;
     double diffsum, current_weight;
     _los = _listOfSamples;
     diffsum = 0.0;
@@ -138,8 +138,8 @@ namespace BFL
     for (_it_los = _los.begin(); _it_los != _los.end(); _it_los++)
       {
 	current_weight = _it_los->WeightGet();
-	diff = (_it_los->ValueGet() - mean);
-	diffsum += (((double)(diff * diff)) * current_weight);
+	diff = (double)_it_los->ValueGet() - (double)mean;
+	diffsum += ((diff * diff) * current_weight);
       }
 
     // Biased estimator!! (unbiased possible with weighted samples??)
-- 
2.43.0


From fb1714ca7037d901c4577a2c03ffef90e124c6b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:55 +0000
Subject: [PATCH 17/34] fix: EKParticleFilter evaluates each proposal density
 with its own covariance

The weight update used the covariance of the last particle for all particles,
which is wrong as soon as the models are nonlinear.
---
 orocos_bfl/src/filter/EKparticlefilter.cpp | 47 ++++++++++++++++++++++
 orocos_bfl/src/filter/EKparticlefilter.h   |  7 ++++
 2 files changed, 54 insertions(+)

diff --git a/orocos_bfl/src/filter/EKparticlefilter.cpp b/orocos_bfl/src/filter/EKparticlefilter.cpp
index 1e68232..169a332 100644
--- a/orocos_bfl/src/filter/EKparticlefilter.cpp
+++ b/orocos_bfl/src/filter/EKparticlefilter.cpp
@@ -133,6 +133,8 @@ namespace BFL
 					 const CV& s)
   {
     _old_samples = (dynamic_cast<MCPdf<CV> *>(this->_post))->ListOfSamplesGet();
+    // The covariances the proposal starts from, needed to update the weights
+    _tmpCov = _sampleCov;
 
     _ns_it = _new_samples.begin();
     _cov_it = _sampleCov.begin();
@@ -183,4 +185,49 @@ namespace BFL
     return (dynamic_cast<MCPdf<CV> *>(this->_post))->ListOfSamplesUpdate(_new_samples);
 
   }
+
+  bool
+  EKParticleFilter::UpdateWeightsInternal(SystemModel<CV>* const sysmodel,
+					  const CV& u,
+					  MeasModel<CV,CV>* const measmodel,
+					  const CV& z,
+					  const CV& s)
+  {
+    Probability weightfactor = 1;
+    Probability proposalprob = 1;
+
+    _new_samples = (dynamic_cast<MCPdf<CV> *>(this->_post))->ListOfSamplesGet();
+    _os_it = _old_samples.begin();
+    _tmpCovit = _tmpCov.begin();
+
+    for ( _ns_it=_new_samples.begin(); _ns_it != _new_samples.end() ; _ns_it++)
+      {
+	const CV& x_new = _ns_it->ValueGet();
+	_x_old = _os_it->ValueGet();
+
+	if (measmodel->SystemWithoutSensorParams())
+	  weightfactor = measmodel->ProbabilityGet(z,x_new);
+	else
+	  weightfactor = measmodel->ProbabilityGet(z,x_new,s);
+
+	// The other conditional arguments of the proposal were set in
+	// the proposal step
+	dynamic_cast<FilterProposalDensity *>(this->_proposal)->SampleCovSet(*_tmpCovit);
+	_proposal->ConditionalArgumentSet(0,_x_old);
+	proposalprob = _proposal->ProbabilityGet(x_new);
+	if (proposalprob == 0)
+	  weightfactor = 0;
+	else if (sysmodel->SystemWithoutInputs())
+	  weightfactor = weightfactor * ( sysmodel->ProbabilityGet(x_new,_x_old) / proposalprob );
+	else
+	  weightfactor = weightfactor * ( sysmodel->ProbabilityGet(x_new,_x_old,u) / proposalprob );
+
+	_ns_it->WeightSet(_ns_it->WeightGet() * weightfactor);
+
+	_os_it++;
+	_tmpCovit++;
+      }
+    // Update the sample list of post the SumofWeights of the pdf
+    return (dynamic_cast<MCPdf<CV> *>(this->_post))->ListOfSamplesUpdate(_new_samples);
+  }
 }
diff --git a/orocos_bfl/src/filter/EKparticlefilter.h b/orocos_bfl/src/filter/EKparticlefilter.h
index 4ee34e8..7879779 100644
--- a/orocos_bfl/src/filter/EKparticlefilter.h
+++ b/orocos_bfl/src/filter/EKparticlefilter.h
@@ -69,6 +69,13 @@ namespace BFL
 					const ColumnVector & z,
 					const ColumnVector & s);
 
+      /// Update of the weights is redefined for the same reason
+      virtual bool UpdateWeightsInternal(SystemModel<ColumnVector> * const sysmodel,
+					 const ColumnVector & u,
+					 MeasurementModel<ColumnVector,ColumnVector> * const measmodel,
+					 const ColumnVector & z,
+					 const ColumnVector & s);
+
       /// Resample also redefined for the same reasons...
       virtual bool Resample();
 
-- 
2.43.0


From 682fbb78e87689f5752b2d8cee71edfe2ad5fddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:05 +0000
Subject: [PATCH 18/34] fix: Boost vectors: assign fills the vector instead of
 writing past its end

---
 orocos_bfl/src/wrappers/matrix/vector_BOOST.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/orocos_bfl/src/wrappers/matrix/vector_BOOST.cpp b/orocos_bfl/src/wrappers/matrix/vector_BOOST.cpp
index 51d2f11..478ddf4 100644
--- a/orocos_bfl/src/wrappers/matrix/vector_BOOST.cpp
+++ b/orocos_bfl/src/wrappers/matrix/vector_BOOST.cpp
@@ -67,7 +67,7 @@ void MyColumnVector::assign(int num_rows, double value)
   BoostColumnVector & op1 = (*this);
   op1.resize(num_rows);
   for (unsigned int i=0; i<num_rows; i++)
-    op1(i+1) = value;
+    op1(i) = value;
 }
 
 // Number of Rows / Cols
@@ -275,7 +275,7 @@ void MyRowVector::assign(int num_columns, double value)
   BoostRowVector & op1 = (*this);
   op1.resize(num_columns);
   for (unsigned int i=0; i<num_columns; i++)
-    op1(i+1) = value;
+    op1(i) = value;
 }
 
 // Number of Rows / Cols
-- 
2.43.0


From 41b1e5ba62597afcef1014b3112cbbda422bf676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:15 +0000
Subject: [PATCH 19/34] fix: Eigen matrices: rowCopy and columnCopy count from
 one

As all other element access of the wrappers, and as with the other matrix
libraries.
---
 orocos_bfl/src/wrappers/matrix/matrix_EIGEN.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/orocos_bfl/src/wrappers/matrix/matrix_EIGEN.cpp b/orocos_bfl/src/wrappers/matrix/matrix_EIGEN.cpp
index 533ca6f..f68ab2b 100644
--- a/orocos_bfl/src/wrappers/matrix/matrix_EIGEN.cpp
+++ b/orocos_bfl/src/wrappers/matrix/matrix_EIGEN.cpp
@@ -182,12 +182,12 @@ MyMatrix&
 
 MyRowVector MyMatrix::rowCopy(unsigned int r) const
 {
-  return (MyRowVector) (*this).row(r);
+  return (MyRowVector) (*this).row(r-1);
 }
 
 MyColumnVector MyMatrix::columnCopy(unsigned int c) const
 {
-  return (MyColumnVector) (*this).col(c);
+  return (MyColumnVector) (*this).col(c-1);
 }
 
 
-- 
2.43.0


From 11035eb0e41a2030f444db1e058bce989f456947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:22 +0000
Subject: [PATCH 20/34] fix: Eigen row vectors: vectorAdd concatenates all
 elements

---
 orocos_bfl/src/wrappers/matrix/vector_EIGEN.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/orocos_bfl/src/wrappers/matrix/vector_EIGEN.cpp b/orocos_bfl/src/wrappers/matrix/vector_EIGEN.cpp
index 0380eef..e9bf425 100644
--- a/orocos_bfl/src/wrappers/matrix/vector_EIGEN.cpp
+++ b/orocos_bfl/src/wrappers/matrix/vector_EIGEN.cpp
@@ -244,10 +244,10 @@ MyRowVector
 MyRowVector::vectorAdd(const MyRowVector& v2) const
 {
   const MyRowVector& v1 = *this;
-  MyRowVector res(v1.rows() + v2.rows());
+  MyRowVector res(v1.columns() + v2.columns());
   EigenRowVector& opl = res;
-  opl.head(v1.rows()) = (const EigenRowVector &)(v1);
-  opl.tail(v2.rows()) = (const EigenRowVector &)(v2);
+  opl.head(v1.columns()) = (const EigenRowVector &)(v1);
+  opl.tail(v2.columns()) = (const EigenRowVector &)(v2);
   return res;
 }
 
-- 
2.43.0


From 229a0fa9304f3fe632e7461594b31b90a1fc23c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:33 +0000
Subject: [PATCH 21/34] fix: Eigen matrices and vectors keep their contents
 when resized

As asked for by the copy argument (default) and as with the other matrix
libraries.
---
 orocos_bfl/src/wrappers/matrix/matrix_EIGEN.cpp | 10 ++++++++--
 orocos_bfl/src/wrappers/matrix/vector_EIGEN.cpp |  4 ++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/orocos_bfl/src/wrappers/matrix/matrix_EIGEN.cpp b/orocos_bfl/src/wrappers/matrix/matrix_EIGEN.cpp
index f68ab2b..2001ce1 100644
--- a/orocos_bfl/src/wrappers/matrix/matrix_EIGEN.cpp
+++ b/orocos_bfl/src/wrappers/matrix/matrix_EIGEN.cpp
@@ -232,7 +232,10 @@ void
 MyMatrix::resize(unsigned int i, unsigned int j, bool copy, bool initialize)
 {
   EigenMatrix & temp = (EigenMatrix &) (*this);
-  temp.resize(i,j);
+  if (copy)
+    temp.conservativeResize(i,j);
+  else
+    temp.resize(i,j);
 }
 
 // get sub matrix
@@ -505,7 +508,10 @@ void
 MySymmetricMatrix::resize(unsigned int i, bool copy, bool initialize)
 {
   EigenSymmetricMatrix & temp = (EigenSymmetricMatrix &) (*this);
-  temp.resize(i,i);
+  if (copy)
+    temp.conservativeResize(i,i);
+  else
+    temp.resize(i,i);
 }
 
 
diff --git a/orocos_bfl/src/wrappers/matrix/vector_EIGEN.cpp b/orocos_bfl/src/wrappers/matrix/vector_EIGEN.cpp
index e9bf425..14d1c53 100644
--- a/orocos_bfl/src/wrappers/matrix/vector_EIGEN.cpp
+++ b/orocos_bfl/src/wrappers/matrix/vector_EIGEN.cpp
@@ -31,7 +31,7 @@ MyColumnVector::ColumnVector(const EigenColumnVector & a) :
 void MyColumnVector::resize(int num_rows)
 {
   EigenColumnVector & op1 = (*this);
-  op1.resize(num_rows);
+  op1.conservativeResize(num_rows);
 }
 
 // Assign
@@ -224,7 +224,7 @@ MyRowVector::RowVector(const EigenRowVector & a) :
 void MyRowVector::resize(int num_columns)
 {
   EigenRowVector & op1 = (*this);
-  op1.resize(num_columns);
+  op1.conservativeResize(num_columns);
 }
 
 // Assign
-- 
2.43.0


From 8dc73b211e561d87ed67171d2bb0c150887fa24e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:45 +0000
Subject: [PATCH 22/34] fix: Eigen matrices: convertToSymmetricMatrix uses the
 lower triangle

As documented, and as with the other matrix libraries.
---
 orocos_bfl/src/wrappers/matrix/matrix_EIGEN.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/orocos_bfl/src/wrappers/matrix/matrix_EIGEN.cpp b/orocos_bfl/src/wrappers/matrix/matrix_EIGEN.cpp
index 2001ce1..8da8514 100644
--- a/orocos_bfl/src/wrappers/matrix/matrix_EIGEN.cpp
+++ b/orocos_bfl/src/wrappers/matrix/matrix_EIGEN.cpp
@@ -224,7 +224,7 @@ MyMatrix::convertToSymmetricMatrix(MySymmetricMatrix& sym)
   assert(this->rows() == this->columns());
 
   const EigenMatrix & A = (EigenMatrix &) (*this);
-  sym = MySymmetricMatrix(A.selfadjointView<Eigen::Upper>());
+  sym = MySymmetricMatrix(EigenSymmetricMatrix(A.selfadjointView<Eigen::Lower>()));
   return 0;
 }
 
-- 
2.43.0


From d9bb8b1b079ed061ebd6f87c58afdba4522bd386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:38 +0000
Subject: [PATCH 23/34] fix: GiNaC models ask their pdf for the function and
 the symbols

The pdf was cast to the model itself, which crashed.
---
 ...analyticmeasurementmodel_gaussianuncertainty_ginac.cpp | 8 ++++----
 ...inearanalyticsystemmodel_gaussianuncertainty_ginac.cpp | 6 +++---
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/orocos_bfl/src/model/nonlinearanalyticmeasurementmodel_gaussianuncertainty_ginac.cpp b/orocos_bfl/src/model/nonlinearanalyticmeasurementmodel_gaussianuncertainty_ginac.cpp
index ce0af27..e856168 100644
--- a/orocos_bfl/src/model/nonlinearanalyticmeasurementmodel_gaussianuncertainty_ginac.cpp
+++ b/orocos_bfl/src/model/nonlinearanalyticmeasurementmodel_gaussianuncertainty_ginac.cpp
@@ -81,25 +81,25 @@ namespace BFL
   GiNaC::matrix
   NonLinearAnalyticMeasurementModelGaussianUncertainty_Ginac::FunctionGet()
   {
-    return ((NonLinearAnalyticMeasurementModelGaussianUncertainty_Ginac *) MeasurementPdfGet())->FunctionGet();
+    return ((NonLinearAnalyticConditionalGaussian_Ginac *) MeasurementPdfGet())->FunctionGet();
   }
 
   vector<GiNaC::symbol>
   NonLinearAnalyticMeasurementModelGaussianUncertainty_Ginac::StateGet()
   {
-    return ((NonLinearAnalyticMeasurementModelGaussianUncertainty_Ginac *)MeasurementPdfGet())->StateGet();
+    return ((NonLinearAnalyticConditionalGaussian_Ginac *) MeasurementPdfGet())->StateGet();
   }
 
   vector<GiNaC::symbol>
   NonLinearAnalyticMeasurementModelGaussianUncertainty_Ginac::InputGet()
   {
-    return ((NonLinearAnalyticMeasurementModelGaussianUncertainty_Ginac *) MeasurementPdfGet())->InputGet();
+    return ((NonLinearAnalyticConditionalGaussian_Ginac *) MeasurementPdfGet())->InputGet();
   }
 
   vector<GiNaC::symbol>
   NonLinearAnalyticMeasurementModelGaussianUncertainty_Ginac::ConditionalGet()
   {
-    return ((NonLinearAnalyticMeasurementModelGaussianUncertainty_Ginac *) MeasurementPdfGet())->ConditionalGet();
+    return ((NonLinearAnalyticConditionalGaussian_Ginac *) MeasurementPdfGet())->ConditionalGet();
   }
 
 } // End namespace BFL
diff --git a/orocos_bfl/src/model/nonlinearanalyticsystemmodel_gaussianuncertainty_ginac.cpp b/orocos_bfl/src/model/nonlinearanalyticsystemmodel_gaussianuncertainty_ginac.cpp
index bb0500f..980f771 100644
--- a/orocos_bfl/src/model/nonlinearanalyticsystemmodel_gaussianuncertainty_ginac.cpp
+++ b/orocos_bfl/src/model/nonlinearanalyticsystemmodel_gaussianuncertainty_ginac.cpp
@@ -47,19 +47,19 @@ namespace BFL
   GiNaC::matrix
   NonLinearAnalyticSystemModelGaussianUncertainty_Ginac::FunctionGet()
   {
-    return ((NonLinearAnalyticSystemModelGaussianUncertainty_Ginac *) SystemPdfGet())->FunctionGet();
+    return ((NonLinearAnalyticConditionalGaussian_Ginac *) SystemPdfGet())->FunctionGet();
   }
 
   vector<GiNaC::symbol>
   NonLinearAnalyticSystemModelGaussianUncertainty_Ginac::StateGet()
   {
-    return ((NonLinearAnalyticSystemModelGaussianUncertainty_Ginac *)SystemPdfGet())->StateGet();
+    return ((NonLinearAnalyticConditionalGaussian_Ginac *) SystemPdfGet())->StateGet();
   }
 
   vector<GiNaC::symbol>
   NonLinearAnalyticSystemModelGaussianUncertainty_Ginac::InputGet()
   {
-    return ((NonLinearAnalyticSystemModelGaussianUncertainty_Ginac *) SystemPdfGet())->InputGet();
+    return ((NonLinearAnalyticConditionalGaussian_Ginac *) SystemPdfGet())->InputGet();
   }
 
 
-- 
2.43.0


From 521e63db9cf9beec56d32d925917ae81dee1d043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:47 +0000
Subject: [PATCH 24/34] fix: copying a GiNaC conditional Gaussian keeps its
 conditional arguments

---
 .../src/pdf/nonlinearanalyticconditionalgaussian_ginac.cpp    | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/orocos_bfl/src/pdf/nonlinearanalyticconditionalgaussian_ginac.cpp b/orocos_bfl/src/pdf/nonlinearanalyticconditionalgaussian_ginac.cpp
index 4199b91..229fad5 100644
--- a/orocos_bfl/src/pdf/nonlinearanalyticconditionalgaussian_ginac.cpp
+++ b/orocos_bfl/src/pdf/nonlinearanalyticconditionalgaussian_ginac.cpp
@@ -99,6 +99,10 @@ namespace BFL
     assert (func_sym.cols() == 1);
     if (cond_size!=0) assert (g.AdditiveNoiseSigmaGet().rows() == cond_size);
 
+    // copy the conditional arguments
+    for (unsigned int i=0; i < this->NumConditionalArgumentsGet(); i++)
+      this->ConditionalArgumentSet(i,g.ConditionalArgumentGet(i));
+
     // derive func to cond
     for (unsigned int i=0; i<cond_size; i++)
       dfunc_dcond[i] = func_sym.diff(cond_sym[i]);
-- 
2.43.0


From f24e704153e29d05d8a7a638a5c4b629d6f32b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:57:09 +0000
Subject: [PATCH 25/34] fix: square root Kalman filter uses consistent square
 roots of P, R and S

cholesky_semidefinite returns the lower factor L with L*L' = A, which is what
the update equations need (JP*JP' = P, Sr*Sr' = S, R_vf*R_vf' = R); transposing
it gave wrong gains and covariances after a system update or with measurements
of more than one dimension.
---
 orocos_bfl/src/filter/SRiteratedextendedkalmanfilter.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/orocos_bfl/src/filter/SRiteratedextendedkalmanfilter.cpp b/orocos_bfl/src/filter/SRiteratedextendedkalmanfilter.cpp
index ade6dcd..f741469 100644
--- a/orocos_bfl/src/filter/SRiteratedextendedkalmanfilter.cpp
+++ b/orocos_bfl/src/filter/SRiteratedextendedkalmanfilter.cpp
@@ -49,8 +49,8 @@ SRIteratedExtendedKalmanFilter::SRIteratedExtendedKalmanFilter(Gaussian* prior,
   //  cout<<"JP2\n"<<JP<<endl;
    // cout<<"post_covar\n"<<_post->CovarianceGet()<<endl;
 
+    // JP is a square root of the covariance: JP*JP' = P
     ((_post->CovarianceGet()).cholesky_semidefinite(JP));
-    JP = JP.transpose();
     // cout<<"JP3\n"<<JP<<endl;
 
   }
@@ -107,8 +107,8 @@ SRIteratedExtendedKalmanFilter::SRIteratedExtendedKalmanFilter(Gaussian* prior,
          }
          else
          {
+                     // R_vf*R_vf' = R_i
                      R_i.cholesky_semidefinite(R_vf);
-                     R_vf = R_vf.transpose();
          }
 
 	// numerical limitations
@@ -194,8 +194,8 @@ void
 	S_temp1 = (S_i1 + S_i2).transpose();
 	S_temp1.convertToSymmetricMatrix(S_temp);
 
+	// Sr*Sr' = S
 	S_temp.cholesky_semidefinite(Sr);
-	Sr  = Sr.transpose();
 
 	invS = Sr.inverse();
 	K_i  = JP*(JP.transpose())*(H_i.transpose())*(invS.transpose())*invS;
-- 
2.43.0


From 207f668b2792431ee119d025a60add84f74d1f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:57:16 +0000
Subject: [PATCH 26/34] fix: resetting the square root Kalman filter resets its
 square root covariance

---
 orocos_bfl/src/filter/SRiteratedextendedkalmanfilter.cpp | 8 ++++++++
 orocos_bfl/src/filter/SRiteratedextendedkalmanfilter.h   | 4 ++++
 2 files changed, 12 insertions(+)

diff --git a/orocos_bfl/src/filter/SRiteratedextendedkalmanfilter.cpp b/orocos_bfl/src/filter/SRiteratedextendedkalmanfilter.cpp
index f741469..6223e3b 100644
--- a/orocos_bfl/src/filter/SRiteratedextendedkalmanfilter.cpp
+++ b/orocos_bfl/src/filter/SRiteratedextendedkalmanfilter.cpp
@@ -35,6 +35,14 @@ SRIteratedExtendedKalmanFilter::SRIteratedExtendedKalmanFilter(Gaussian* prior,
 
   SRIteratedExtendedKalmanFilter::~SRIteratedExtendedKalmanFilter(){}
 
+  void
+  SRIteratedExtendedKalmanFilter::Reset(Pdf<MatrixWrapper::ColumnVector>* prior)
+  {
+    KalmanFilter::Reset(prior);
+    // restart from the square root of the new covariance too
+    (_post->CovarianceGet()).cholesky_semidefinite(JP);
+  }
+
   void
   SRIteratedExtendedKalmanFilter::SysUpdate(SystemModel<MatrixWrapper::ColumnVector>* const sysmodel,const MatrixWrapper::ColumnVector& u)
   {
diff --git a/orocos_bfl/src/filter/SRiteratedextendedkalmanfilter.h b/orocos_bfl/src/filter/SRiteratedextendedkalmanfilter.h
index 0016778..4d4baf9 100644
--- a/orocos_bfl/src/filter/SRiteratedextendedkalmanfilter.h
+++ b/orocos_bfl/src/filter/SRiteratedextendedkalmanfilter.h
@@ -62,6 +62,10 @@ namespace BFL
 
       /// Destructor
       virtual ~SRIteratedExtendedKalmanFilter();
+
+      // implement virtual function
+      virtual void Reset(Pdf<MatrixWrapper::ColumnVector>* prior);
+
       /// Perform a system update with the current measurement model ans system model using an input u
       virtual void SysUpdate(SystemModel<MatrixWrapper::ColumnVector>* const sysmodel,
 			     const MatrixWrapper::ColumnVector& u);
-- 
2.43.0


From 812764fb942fa6f57ab3f59b89d0cc4fb73a7760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:25 +0000
Subject: [PATCH 27/34] fix: a default constructed Uniform can be sampled after
 UniformSet

---
 orocos_bfl/src/pdf/uniform.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/orocos_bfl/src/pdf/uniform.cpp b/orocos_bfl/src/pdf/uniform.cpp
index 914cd7d..58d140a 100644
--- a/orocos_bfl/src/pdf/uniform.cpp
+++ b/orocos_bfl/src/pdf/uniform.cpp
@@ -136,7 +136,11 @@ namespace BFL
     {
         _Height = _Height / width(i);
     }
-    if (this->DimensionGet() == 0) this->DimensionSet(center.rows());
+    if (this->DimensionGet() == 0)
+      {
+	this->DimensionSet(center.rows());
+	_samples.resize(DimensionGet());
+      }
     assert(this->DimensionGet() == center.rows());
   }
 
-- 
2.43.0


From ca618f1a6e773384281252ee2a32f7f973b7cc16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:04 +0000
Subject: [PATCH 28/34] fix: setting the dimension of a conditional Gaussian
 resizes its sampling variables

---
 orocos_bfl/src/pdf/conditionalgaussian.cpp | 11 +++++++++++
 orocos_bfl/src/pdf/conditionalgaussian.h   |  1 +
 2 files changed, 12 insertions(+)

diff --git a/orocos_bfl/src/pdf/conditionalgaussian.cpp b/orocos_bfl/src/pdf/conditionalgaussian.cpp
index e1d9631..4853aae 100644
--- a/orocos_bfl/src/pdf/conditionalgaussian.cpp
+++ b/orocos_bfl/src/pdf/conditionalgaussian.cpp
@@ -111,4 +111,15 @@ namespace BFL
       }
   }
 
+  void
+  ConditionalGaussian::DimensionSet ( unsigned int dim )
+  {
+    ConditionalPdf<ColumnVector,ColumnVector>::DimensionSet(dim);
+    _diff.resize(dim);
+    _Mu.resize(dim);
+    _Low_triangle.resize(dim,dim);
+    _samples.resize(dim);
+    _SampleValue.resize(dim);
+  }
+
 } // End namespace
diff --git a/orocos_bfl/src/pdf/conditionalgaussian.h b/orocos_bfl/src/pdf/conditionalgaussian.h
index d1d2b52..34c906f 100644
--- a/orocos_bfl/src/pdf/conditionalgaussian.h
+++ b/orocos_bfl/src/pdf/conditionalgaussian.h
@@ -61,6 +61,7 @@ namespace BFL
       virtual bool SampleFrom (Sample<MatrixWrapper::ColumnVector>& sample, const SampleMthd method=SampleMthd::DEFAULT, void * args=NULL) const;
       virtual bool SampleFrom (std::vector<Sample<MatrixWrapper::ColumnVector> >& samples, const unsigned int num_samples,
 			       const SampleMthd method=SampleMthd::DEFAULT, void * args=NULL) const;
+      virtual void DimensionSet(unsigned int dim);
 
     protected:
       // variables to avoid allocation on the heap during sampling
-- 
2.43.0


From 2044569237dba47322c6de8ea87b4d7c0c2aaa03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:24:53 +0000
Subject: [PATCH 29/34] fix: the EKF proposal of a particle filter does not
 touch the previous measurement model

---
 orocos_bfl/src/pdf/filterproposaldensity.cpp | 13 +++++++++----
 orocos_bfl/src/pdf/filterproposaldensity.h   |  2 ++
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/orocos_bfl/src/pdf/filterproposaldensity.cpp b/orocos_bfl/src/pdf/filterproposaldensity.cpp
index fda51ed..4eff716 100644
--- a/orocos_bfl/src/pdf/filterproposaldensity.cpp
+++ b/orocos_bfl/src/pdf/filterproposaldensity.cpp
@@ -29,8 +29,11 @@ namespace BFL
 				 AnalyticMeasurementModelGaussianUncertainty * MeasModel)
     : AnalyticConditionalGaussian(),
       _sysmodel(SysModel),
-      _measmodel(MeasModel)
+      _measmodel(MeasModel),
+      _num_meas_args(0)
   {
+    if (MeasModel != NULL)
+      _num_meas_args = MeasModel->MeasurementPdfGet()->NumConditionalArgumentsGet();
     if (SysModel != NULL)
       {
 	_TmpPrior = new Gaussian(SysModel->StateSizeGet());
@@ -39,7 +42,7 @@ namespace BFL
 	this->DimensionSet(SysModel->StateSizeGet());
 	if (MeasModel != NULL)
 	  this->NumConditionalArgumentsSet(SysModel->SystemPdfGet()->NumConditionalArgumentsGet()
-					   + MeasModel->MeasurementPdfGet()->NumConditionalArgumentsGet());
+					   + _num_meas_args);
       }
     else
       {
@@ -74,9 +77,10 @@ namespace BFL
 	_sample_cov.resize(SysModel->StateSizeGet());
       }
     this->DimensionSet(SysModel->StateSizeGet());
+    // the previous measurement model may not exist any more
     if (_measmodel != NULL)
       this->NumConditionalArgumentsSet(SysModel->SystemPdfGet()->NumConditionalArgumentsGet()
-				       + _measmodel->MeasurementPdfGet()->NumConditionalArgumentsGet());
+				       + _num_meas_args);
     _sysmodel = SysModel;
   }
 
@@ -85,9 +89,10 @@ namespace BFL
   FilterPropDens::MeasurementModelSet(AnalyticMeasurementModelGaussianUncertainty * MeasModel)
   {
     assert ( MeasModel != NULL );
+    _num_meas_args = MeasModel->MeasurementPdfGet()->NumConditionalArgumentsGet();
     if (_sysmodel != NULL)
       this->NumConditionalArgumentsSet(_sysmodel->SystemPdfGet()->NumConditionalArgumentsGet()
-				       + MeasModel->MeasurementPdfGet()->NumConditionalArgumentsGet());
+				       + _num_meas_args);
     _measmodel = MeasModel;
   }
 
diff --git a/orocos_bfl/src/pdf/filterproposaldensity.h b/orocos_bfl/src/pdf/filterproposaldensity.h
index d5b10e8..3393b98 100644
--- a/orocos_bfl/src/pdf/filterproposaldensity.h
+++ b/orocos_bfl/src/pdf/filterproposaldensity.h
@@ -83,6 +83,8 @@ namespace BFL
 
       AnalyticSystemModelGaussianUncertainty * _sysmodel;
       AnalyticMeasurementModelGaussianUncertainty * _measmodel;
+      /// Number of conditional arguments of the measurement model
+      unsigned int _num_meas_args;
 
       MatrixWrapper::SymmetricMatrix _sample_cov;
 
-- 
2.43.0


From 8730df888682c2632ab5a1065381f90107cd1669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:25:04 +0000
Subject: [PATCH 30/34] fix: SymmetricMatrix += and -= Matrix return the
 symmetric matrix

---
 orocos_bfl/src/wrappers/matrix/matrix_BOOST.cpp  | 8 ++++----
 orocos_bfl/src/wrappers/matrix/matrix_BOOST.h    | 4 ++--
 orocos_bfl/src/wrappers/matrix/matrix_EIGEN.cpp  | 8 ++++----
 orocos_bfl/src/wrappers/matrix/matrix_EIGEN.h    | 4 ++--
 orocos_bfl/src/wrappers/matrix/matrix_NEWMAT.cpp | 8 ++++----
 orocos_bfl/src/wrappers/matrix/matrix_NEWMAT.h   | 4 ++--
 orocos_bfl/src/wrappers/matrix/matrix_wrapper.h  | 4 ++--
 7 files changed, 20 insertions(+), 20 deletions(-)

diff --git a/orocos_bfl/src/wrappers/matrix/matrix_BOOST.cpp b/orocos_bfl/src/wrappers/matrix/matrix_BOOST.cpp
index dbd1d2e..1f40034 100644
--- a/orocos_bfl/src/wrappers/matrix/matrix_BOOST.cpp
+++ b/orocos_bfl/src/wrappers/matrix/matrix_BOOST.cpp
@@ -512,18 +512,18 @@ MySymmetricMatrix MySymmetricMatrix::operator /(double b) const
 
 
 // SYMMETRICMATRIX - MATRIX operators
-MyMatrix& MySymmetricMatrix::operator +=(const MyMatrix& a)
+MySymmetricMatrix& MySymmetricMatrix::operator +=(const MyMatrix& a)
 {
   BoostSymmetricMatrix & op1 = (*this);
   op1 += a;
-  return (MyMatrix &) op1;
+  return (MySymmetricMatrix &) op1;
 }
 
-MyMatrix& MySymmetricMatrix::operator -=(const MyMatrix& a)
+MySymmetricMatrix& MySymmetricMatrix::operator -=(const MyMatrix& a)
 {
   BoostSymmetricMatrix & op1 = (*this);
   op1 -= a;
-  return (MyMatrix &) op1;
+  return (MySymmetricMatrix &) op1;
 }
 
 
diff --git a/orocos_bfl/src/wrappers/matrix/matrix_BOOST.h b/orocos_bfl/src/wrappers/matrix/matrix_BOOST.h
index 04b8faa..f2bf2aa 100644
--- a/orocos_bfl/src/wrappers/matrix/matrix_BOOST.h
+++ b/orocos_bfl/src/wrappers/matrix/matrix_BOOST.h
@@ -150,8 +150,8 @@ class SymmetricMatrix : public BoostSymmetricMatrix, public SymmetricMatrix_Wrap
 
   virtual MyRowVector rowCopy(unsigned int r) const;
 
-  virtual MyMatrix& operator +=(const MyMatrix& a);
-  virtual MyMatrix& operator -=(const MyMatrix& a);
+  virtual MySymmetricMatrix& operator +=(const MyMatrix& a);
+  virtual MySymmetricMatrix& operator -=(const MyMatrix& a);
   virtual MyMatrix operator  + (const MyMatrix &a) const;
   virtual MyMatrix operator  - (const MyMatrix &a) const;
   virtual MyMatrix operator  * (const MyMatrix &a) const;
diff --git a/orocos_bfl/src/wrappers/matrix/matrix_EIGEN.cpp b/orocos_bfl/src/wrappers/matrix/matrix_EIGEN.cpp
index 8da8514..0329d67 100644
--- a/orocos_bfl/src/wrappers/matrix/matrix_EIGEN.cpp
+++ b/orocos_bfl/src/wrappers/matrix/matrix_EIGEN.cpp
@@ -376,18 +376,18 @@ MySymmetricMatrix MySymmetricMatrix::operator /(double b) const
 
 
 // SYMMETRICMATRIX - MATRIX operators
-MyMatrix& MySymmetricMatrix::operator +=(const MyMatrix& a)
+MySymmetricMatrix& MySymmetricMatrix::operator +=(const MyMatrix& a)
 {
   EigenSymmetricMatrix & op1 = (*this);
   op1 += a;
-  return (MyMatrix &) op1;
+  return (MySymmetricMatrix &) op1;
 }
 
-MyMatrix& MySymmetricMatrix::operator -=(const MyMatrix& a)
+MySymmetricMatrix& MySymmetricMatrix::operator -=(const MyMatrix& a)
 {
   EigenSymmetricMatrix & op1 = (*this);
   op1 -= a;
-  return (MyMatrix &) op1;
+  return (MySymmetricMatrix &) op1;
 }
 
 
diff --git a/orocos_bfl/src/wrappers/matrix/matrix_EIGEN.h b/orocos_bfl/src/wrappers/matrix/matrix_EIGEN.h
index c06db5f..0e89219 100644
--- a/orocos_bfl/src/wrappers/matrix/matrix_EIGEN.h
+++ b/orocos_bfl/src/wrappers/matrix/matrix_EIGEN.h
@@ -141,8 +141,8 @@ class SymmetricMatrix : public EigenSymmetricMatrix, public SymmetricMatrix_Wrap
 
   virtual MyRowVector rowCopy(unsigned int r) const;
 
-  virtual MyMatrix& operator +=(const MyMatrix& a);
-  virtual MyMatrix& operator -=(const MyMatrix& a);
+  virtual MySymmetricMatrix& operator +=(const MyMatrix& a);
+  virtual MySymmetricMatrix& operator -=(const MyMatrix& a);
   virtual MyMatrix operator  + (const MyMatrix &a) const;
   virtual MyMatrix operator  - (const MyMatrix &a) const;
   virtual MyMatrix operator  * (const MyMatrix &a) const;
diff --git a/orocos_bfl/src/wrappers/matrix/matrix_NEWMAT.cpp b/orocos_bfl/src/wrappers/matrix/matrix_NEWMAT.cpp
index a552c7c..b2fc52f 100644
--- a/orocos_bfl/src/wrappers/matrix/matrix_NEWMAT.cpp
+++ b/orocos_bfl/src/wrappers/matrix/matrix_NEWMAT.cpp
@@ -386,20 +386,20 @@ MySymmetricMatrix MySymmetricMatrix::operator /(double b) const
 
 
 // SYMMETRICMATRIX - MATRIX operators
-MyMatrix& MySymmetricMatrix::operator +=(const MyMatrix& a)
+MySymmetricMatrix& MySymmetricMatrix::operator +=(const MyMatrix& a)
 {
   NewMatSymmetricMatrix & op1 = (*this);
   const NewMatMatrix & op2 = a;
   op1 += op2;
-  return (MyMatrix &) op1;
+  return (MySymmetricMatrix &) op1;
 }
 
-MyMatrix& MySymmetricMatrix::operator -=(const MyMatrix& a)
+MySymmetricMatrix& MySymmetricMatrix::operator -=(const MyMatrix& a)
 {
   NewMatSymmetricMatrix & op1 = (*this);
   const NewMatMatrix & op2 = a;
   op1 -= op2;
-  return (MyMatrix &) op1;
+  return (MySymmetricMatrix &) op1;
 }
 
 
diff --git a/orocos_bfl/src/wrappers/matrix/matrix_NEWMAT.h b/orocos_bfl/src/wrappers/matrix/matrix_NEWMAT.h
index a898179..7e15ccc 100644
--- a/orocos_bfl/src/wrappers/matrix/matrix_NEWMAT.h
+++ b/orocos_bfl/src/wrappers/matrix/matrix_NEWMAT.h
@@ -128,8 +128,8 @@ class SymmetricMatrix : public NewMatSymmetricMatrix, public SymmetricMatrix_Wra
   virtual MySymmetricMatrix  operator * (double b) const;
   virtual MySymmetricMatrix  operator / (double b) const;
 
-  virtual MyMatrix& operator +=(const MyMatrix& a);
-  virtual MyMatrix& operator -=(const MyMatrix& a);
+  virtual MySymmetricMatrix& operator +=(const MyMatrix& a);
+  virtual MySymmetricMatrix& operator -=(const MyMatrix& a);
   virtual MyMatrix operator  + (const MyMatrix &a) const;
   virtual MyMatrix operator  - (const MyMatrix &a) const;
   virtual MyMatrix operator  * (const MyMatrix &a) const;
diff --git a/orocos_bfl/src/wrappers/matrix/matrix_wrapper.h b/orocos_bfl/src/wrappers/matrix/matrix_wrapper.h
index 44ea527..03bc416 100644
--- a/orocos_bfl/src/wrappers/matrix/matrix_wrapper.h
+++ b/orocos_bfl/src/wrappers/matrix/matrix_wrapper.h
@@ -225,10 +225,10 @@ public:
 
 
   /// SYMMETRICMATRIX - MATRIX operator
-  virtual MyMatrix& operator +=(const MyMatrix& a) = 0;
+  virtual MySymmetricMatrix& operator +=(const MyMatrix& a) = 0;
 
   /// SYMMETRICMATRIX - MATRIX operator
-  virtual MyMatrix& operator -=(const MyMatrix& a) = 0;
+  virtual MySymmetricMatrix& operator -=(const MyMatrix& a) = 0;
 
   /// SYMMETRICMATRIX - MATRIX operator
   virtual MyMatrix operator+ (const MyMatrix &a) const = 0;
-- 
2.43.0


From da7abdeaa96c87729a36b3aa11b80a5e8dafffb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:25:44 +0000
Subject: [PATCH 31/34] fix: a Boost SymmetricMatrix can be constructed from a
 row vector

---
 orocos_bfl/src/wrappers/matrix/matrix_BOOST.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/orocos_bfl/src/wrappers/matrix/matrix_BOOST.cpp b/orocos_bfl/src/wrappers/matrix/matrix_BOOST.cpp
index 1f40034..6cf938f 100644
--- a/orocos_bfl/src/wrappers/matrix/matrix_BOOST.cpp
+++ b/orocos_bfl/src/wrappers/matrix/matrix_BOOST.cpp
@@ -338,7 +338,8 @@ MySymmetricMatrix::SymmetricMatrix(int n) : BoostSymmetricMatrix(n) {}
 MySymmetricMatrix::SymmetricMatrix(int num_rows,const RowVector& v):BoostSymmetricMatrix(num_rows,v.size()){
   BoostSymmetricMatrix & m = *this;
   for(unsigned int i=0;i<num_rows;i++)
-    row(m,i).assign(v);
+    for(unsigned int j=0;j<=i;j++)
+      m(i,j) = v(j+1);
 }
 
 MyRowVector MySymmetricMatrix::operator[](unsigned int i) const{
-- 
2.43.0


From bd046bdaedfded810e980a0a824c1d86b5ce8fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:25:53 +0000
Subject: [PATCH 32/34] fix: the determinant of a singular Boost matrix is zero

---
 orocos_bfl/src/wrappers/matrix/matrix_BOOST.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/orocos_bfl/src/wrappers/matrix/matrix_BOOST.cpp b/orocos_bfl/src/wrappers/matrix/matrix_BOOST.cpp
index 6cf938f..78b4b68 100644
--- a/orocos_bfl/src/wrappers/matrix/matrix_BOOST.cpp
+++ b/orocos_bfl/src/wrappers/matrix/matrix_BOOST.cpp
@@ -242,8 +242,8 @@ double MyMatrix::determinant() const
             BoostMatrix LU(r,r);
             boost::numeric::ublas::permutation_matrix<> ndx(r);
             noalias(LU) = A;
-            int res = lu_factorize(LU,ndx);
-            assert(res == 0);
+            // a singular matrix has a zero on the diagonal of its LU decomposition
+            lu_factorize(LU,ndx);
 
             int s = 1;
             for (boost::numeric::ublas::matrix<double>::size_type i=0;i<LU.size1();++i) {
@@ -434,8 +434,8 @@ double MySymmetricMatrix::determinant() const
         BoostMatrix LU(r,r);
         boost::numeric::ublas::permutation_matrix<> ndx(r);
         noalias(LU) = A;
-        int res = lu_factorize(LU,ndx);
-        assert(res == 0);
+        // a singular matrix has a zero on the diagonal of its LU decomposition
+        lu_factorize(LU,ndx);
 
         double result = 1.0;
         int s = 1;
-- 
2.43.0


From f139d29c5af3e96ab2e92d0cd1d7323a948cf948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:26:04 +0000
Subject: [PATCH 33/34] fix: GiNaC conditional Gaussians are cloned whole and
 handle noise on their inputs

---
 ...inearanalyticconditionalgaussian_ginac.cpp | 31 +++++++++++++++----
 ...nlinearanalyticconditionalgaussian_ginac.h |  3 ++
 2 files changed, 28 insertions(+), 6 deletions(-)

diff --git a/orocos_bfl/src/pdf/nonlinearanalyticconditionalgaussian_ginac.cpp b/orocos_bfl/src/pdf/nonlinearanalyticconditionalgaussian_ginac.cpp
index 229fad5..a87fc8d 100644
--- a/orocos_bfl/src/pdf/nonlinearanalyticconditionalgaussian_ginac.cpp
+++ b/orocos_bfl/src/pdf/nonlinearanalyticconditionalgaussian_ginac.cpp
@@ -32,7 +32,7 @@ namespace BFL
    const vector<GiNaC::symbol>& x,
    const Gaussian& additiveNoise,
    const vector<GiNaC::symbol>& cond )
-    :AnalyticConditionalGaussianAdditiveNoise(additiveNoise,3),
+    :AnalyticConditionalGaussianAdditiveNoise(func.rows(),2),
      func_sym        (func),
      cond_sym        (cond),
      u_sym           (u),
@@ -48,6 +48,10 @@ namespace BFL
     assert (func_sym.cols() == 1);
     assert (additiveNoise.DimensionGet() == cond_size);
 
+    // the noise applies to cond, not to the function value
+    AdditiveNoiseMuSet(additiveNoise.ExpectedValueGet());
+    AdditiveNoiseSigmaSet(additiveNoise.CovarianceGet());
+
     // derive func to cond
     for (unsigned int i=0; i < cond_size; i++)
       dfunc_dcond[i] = func_sym.diff(cond_sym[i]);
@@ -83,7 +87,7 @@ namespace BFL
   // copy constructor
   NonLinearAnalyticConditionalGaussian_Ginac::NonLinearAnalyticConditionalGaussian_Ginac
   (const NonLinearAnalyticConditionalGaussian_Ginac& g)
-    : AnalyticConditionalGaussianAdditiveNoise( Gaussian(g.AdditiveNoiseMuGet(),g.AdditiveNoiseSigmaGet()) ,2),
+    : AnalyticConditionalGaussianAdditiveNoise( g ),
       func_sym        (g.func_sym),
       cond_sym        (g.cond_sym),
       u_sym           (g.u_sym),
@@ -99,10 +103,6 @@ namespace BFL
     assert (func_sym.cols() == 1);
     if (cond_size!=0) assert (g.AdditiveNoiseSigmaGet().rows() == cond_size);
 
-    // copy the conditional arguments
-    for (unsigned int i=0; i < this->NumConditionalArgumentsGet(); i++)
-      this->ConditionalArgumentSet(i,g.ConditionalArgumentGet(i));
-
     // derive func to cond
     for (unsigned int i=0; i<cond_size; i++)
       dfunc_dcond[i] = func_sym.diff(cond_sym[i]);
@@ -116,6 +116,13 @@ namespace BFL
   NonLinearAnalyticConditionalGaussian_Ginac::~NonLinearAnalyticConditionalGaussian_Ginac()
   {}
 
+  //Clone function
+  NonLinearAnalyticConditionalGaussian_Ginac*
+  NonLinearAnalyticConditionalGaussian_Ginac::Clone() const
+  {
+    return new NonLinearAnalyticConditionalGaussian_Ginac(*this);
+  }
+
 
   std::ostream& operator<< (std::ostream& os, NonLinearAnalyticConditionalGaussian_Ginac& p)
   {
@@ -187,6 +194,12 @@ namespace BFL
 	u_num = ConditionalArgumentGet(1);
 	x_num = ConditionalArgumentGet(0);
 
+	// linearise around Mu of additive noise
+	for (unsigned int i=0; i<u_size; i++)
+	  for (unsigned int j=0; j<cond_size; j++)
+	    if (u_sym[i] == cond_sym[j])
+	      u_num(i+1) += (this->AdditiveNoiseMuGet())(j+1);
+
 	for (unsigned int i=0; i<cond_size; i++)
 	  {
 	    // temp variable to substitute in
@@ -239,6 +252,12 @@ namespace BFL
     u_num = ConditionalArgumentGet(1);
     x_num = ConditionalArgumentGet(0);
 
+    // linearise around Mu of additive noise
+    for (unsigned int i=0; i<u_size; i++)
+      for (unsigned int j=0; j<cond_size; j++)
+	if (u_sym[i] == cond_sym[j])
+	  u_num(i+1) += (this->AdditiveNoiseMuGet())(j+1);
+
     // numeric evaluation of derivative: dfunc_dx = F
     for (unsigned int i=0; i<x_size; i++)
       {
diff --git a/orocos_bfl/src/pdf/nonlinearanalyticconditionalgaussian_ginac.h b/orocos_bfl/src/pdf/nonlinearanalyticconditionalgaussian_ginac.h
index 6c15bc4..1c2d077 100644
--- a/orocos_bfl/src/pdf/nonlinearanalyticconditionalgaussian_ginac.h
+++ b/orocos_bfl/src/pdf/nonlinearanalyticconditionalgaussian_ginac.h
@@ -82,6 +82,9 @@ namespace BFL
       /// Destructor
       virtual ~NonLinearAnalyticConditionalGaussian_Ginac();
 
+      ///Clone function
+      virtual NonLinearAnalyticConditionalGaussian_Ginac* Clone() const;
+
       /// output stream for measurement model
       friend std::ostream& operator<< (std::ostream& os, NonLinearAnalyticConditionalGaussian_Ginac& p);
 
-- 
2.43.0


From f85e8b42cf81ea5d025a4cab7f11409a68b338bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:35:18 +0000
Subject: [PATCH 34/34] fix: SVD of matrices with repeated singular values did
 not converge

---
 orocos_bfl/src/wrappers/matrix/matrix_wrapper.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/orocos_bfl/src/wrappers/matrix/matrix_wrapper.cpp b/orocos_bfl/src/wrappers/matrix/matrix_wrapper.cpp
index 4ed9fe3..e9f705e 100644
--- a/orocos_bfl/src/wrappers/matrix/matrix_wrapper.cpp
+++ b/orocos_bfl/src/wrappers/matrix/matrix_wrapper.cpp
@@ -161,6 +161,9 @@ namespace MatrixWrapper
           ++U(i,i);
         }
 
+        // Off-diagonal elements at the level of the rounding errors count as zero
+        const double tiny = anorm * std::numeric_limits<double>::epsilon();
+
         // Diagonalization of the bidiagonal form:
         // Loop over singular values,and over allowed iterations
         for ( k=cols; k >= 1; k--) {
@@ -169,11 +172,11 @@ namespace MatrixWrapper
             //Test for splitting. Note that rv1[i] is always 0
             for (ppi=k; ppi >= 1; ppi--) {
               nm=ppi-1;
-              if ((fabs(rv1.at(ppi-1))+anorm) == anorm) {
+              if (fabs(rv1.at(ppi-1)) <= tiny) {
                 flag=false;
                 break;
               }
-              if ((fabs(w(nm)+anorm) == anorm)) {
+              if (fabs(w(nm)) <= tiny) {
                 break;
               }
             }
@@ -184,7 +187,7 @@ namespace MatrixWrapper
               for ( i=ppi; i <= k ;i++) {
                 f=s*rv1.at(i-1);
                 rv1.at(i-1)=c*rv1.at(i-1);
-                if ((fabs(f)+anorm) == anorm) {
+                if (fabs(f) <= tiny) {
                   break;
                 }
                 g=w(i);
-- 
2.43.0

