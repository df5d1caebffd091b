From 78812125ba628419598229cf8db98689dd048e72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:42 +0000
Subject: [PATCH 001/203] fix: single-element vectorRamp overwrote the midpoint
 when both or neither end is inclusive

---
 src/libefl/reference/vector_functions_impl.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/libefl/reference/vector_functions_impl.hpp b/src/libefl/reference/vector_functions_impl.hpp
index 3455d68..63a5a3c 100644
--- a/src/libefl/reference/vector_functions_impl.hpp
+++ b/src/libefl/reference/vector_functions_impl.hpp
@@ -71,7 +71,10 @@ ErrorCode vectorRamp( T * const dest, std::size_t numElements, T startVal, T end
     {
       dest[0] = static_cast<T>(0.5f)*(startVal+endVal);
     }
-    dest[0] = startInclusive ? startVal : endVal;
+    else
+    {
+      dest[0] = startInclusive ? startVal : endVal;
+    }
     return noError;
   }
   std::size_t const numSteps = numElements + 1 - (startInclusive ? 1 : 0) - (endInclusive ? 1 : 0);
-- 
2.43.0


From 7fdf98dfec1194969cbe4c3b07f97d315cc9ffb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:42 +0000
Subject: [PATCH 002/203] fix: x86-64 vectorMultiplyConstantAddInplace ignored
 the alignment argument and used an aligned store on unaligned data

---
 src/libefl/intel_x86_64/vector_multiply_add.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/libefl/intel_x86_64/vector_multiply_add.cpp b/src/libefl/intel_x86_64/vector_multiply_add.cpp
index 0958bbb..db59588 100644
--- a/src/libefl/intel_x86_64/vector_multiply_add.cpp
+++ b/src/libefl/intel_x86_64/vector_multiply_add.cpp
@@ -345,6 +345,9 @@ ErrorCode vectorMultiplyConstantAddInplace<float, Feature::VISR_SIMD_FEATURE>( f
 					    std::size_t numElements,
 					    std::size_t alignment /*= 0*/ )
 {
+  if( not checkAlignment( factor, alignment ) ) return alignmentError;
+  if( not checkAlignment( accumulator, alignment ) ) return alignmentError;
+
   float const * x = factor;
   float * y = accumulator;
   std::size_t cnt = numElements;
@@ -410,7 +413,7 @@ ErrorCode vectorMultiplyConstantAddInplace<float, Feature::VISR_SIMD_FEATURE>( f
         __m128 mulRes = _mm_mul_ps( a, c );
         acc = _mm_add_ps( mulRes, acc );
 #endif
-    _mm_store_ps( y, acc );
+    _mm_storeu_ps( y, acc );
     y += 4;
   }
   while( cnt > 0 ) // Remaining scalar elements
@@ -438,6 +441,9 @@ ErrorCode vectorMultiplyConstantAddInplace<std::complex<float>, Feature::VISR_SI
 					    std::size_t numElements,
 					    std::size_t alignment /*= 0*/ )
 {
+  if( not checkAlignment( factor, alignment ) ) return alignmentError;
+  if( not checkAlignment( accumulator, alignment ) ) return alignmentError;
+
   float const * x = reinterpret_cast<float const *>(factor);
   float * y = reinterpret_cast<float *>(accumulator);
   std::size_t cnt = numElements;
-- 
2.43.0


From e7b5d0319715fb51fae1dd84c17654aea2c4c7fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:15 +0000
Subject: [PATCH 003/203] fix: removeRoutingEntry of the convolvers returned
 whether a later entry exists instead of whether the entry was removed

---
 src/librbbl/crossfading_convolver_uniform.cpp  | 4 +---
 src/librbbl/multichannel_convolver_uniform.cpp | 4 +---
 2 files changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/librbbl/crossfading_convolver_uniform.cpp b/src/librbbl/crossfading_convolver_uniform.cpp
index 2747fcd..21e7764 100644
--- a/src/librbbl/crossfading_convolver_uniform.cpp
+++ b/src/librbbl/crossfading_convolver_uniform.cpp
@@ -258,9 +258,7 @@ bool CrossfadingConvolverUniform< SampleType >::removeRoutingEntry(
     std::size_t inputIdx, std::size_t outputIdx )
 {
   RoutingEntry const testEntry( inputIdx, outputIdx, 0, 0.0f );
-  auto const eraseRange = mRoutingTable.equal_range( testEntry );
-  mRoutingTable.erase( eraseRange.first, eraseRange.second );
-  return eraseRange.first != mRoutingTable.end();
+  return mRoutingTable.erase( testEntry ) != 0;
 }
 
 template< typename SampleType >
diff --git a/src/librbbl/multichannel_convolver_uniform.cpp b/src/librbbl/multichannel_convolver_uniform.cpp
index cd91426..a8c7445 100644
--- a/src/librbbl/multichannel_convolver_uniform.cpp
+++ b/src/librbbl/multichannel_convolver_uniform.cpp
@@ -127,9 +127,7 @@ template< typename SampleType>
 bool MultichannelConvolverUniform<SampleType>::removeRoutingEntry( std::size_t inputIdx, std::size_t outputIdx )
 {
   RoutingEntry const testEntry( inputIdx, outputIdx, 0, 0.0f );
-  auto const eraseRange = mRoutingTable.equal_range( testEntry );
-  mRoutingTable.erase( eraseRange.first, eraseRange.second );
-  return eraseRange.first != mRoutingTable.end();
+  return mRoutingTable.erase( testEntry ) != 0;
 }
 
 template< typename SampleType>
-- 
2.43.0


From 4bd9e05ce0d7dcdb12a96d0fde2e0977ed7b2391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:18 +0000
Subject: [PATCH 004/203] fix: convolvers silently lost filter partitions if
 the block length is not a multiple of the alignment

---
 src/librbbl/core_convolver_uniform.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/librbbl/core_convolver_uniform.cpp b/src/librbbl/core_convolver_uniform.cpp
index 42855b0..7e3bbd4 100644
--- a/src/librbbl/core_convolver_uniform.cpp
+++ b/src/librbbl/core_convolver_uniform.cpp
@@ -234,11 +234,13 @@ transformImpulseResponse( SampleType const * ir, std::size_t irLength, Frequency
     std::size_t const endIdx = std::min( (partitionIdx + 1) * blockLength(), irLength ); // STL-like 'one past end' index
     if( endIdx > startIdx )
     {
-      // The following multiply calls assumes that the blocklength is a multiple of the alignment.
+      // The partitions of the impulse response start at multiples of the block length.
+      std::size_t const maxAlignment = std::min( mAlignment, alignment );
+      std::size_t const partitionAlignment = ( maxAlignment > 0 ) and ( blockLength() % maxAlignment == 0 ) ? maxAlignment : 0;
       // Multiply the the filter by the computed scaling constants to compensate for the FFT normalisation.
-      if( efl::vectorMultiplyConstant( mFilterScalingFactor, ir + startIdx, mTimeDomainTransformBuffer.data(), endIdx - startIdx, std::min( mAlignment, alignment ) ) != efl::noError )
+      if( efl::vectorMultiplyConstant( mFilterScalingFactor, ir + startIdx, mTimeDomainTransformBuffer.data(), endIdx - startIdx, partitionAlignment ) != efl::noError )
       {
-        std::runtime_error( "CoreConvolverUniform::transformImpulseResponse(): Error while copying data." );
+        throw std::runtime_error( "CoreConvolverUniform::transformImpulseResponse(): Error while copying data." );
       }
     }
     FrequencyDomainType * blockResult = result + partitionIdx * mDftRepresentationSizePadded;
-- 
2.43.0


From cb2353482c90acc4275a7b16fa3172a69fe3f6cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:05 +0000
Subject: [PATCH 005/203] fix: crossfading convolver failed in process() if the
 block length is not a multiple of the alignment

---
 src/librbbl/crossfading_convolver_uniform.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/librbbl/crossfading_convolver_uniform.cpp b/src/librbbl/crossfading_convolver_uniform.cpp
index 21e7764..060d514 100644
--- a/src/librbbl/crossfading_convolver_uniform.cpp
+++ b/src/librbbl/crossfading_convolver_uniform.cpp
@@ -139,7 +139,12 @@ void CrossfadingConvolverUniform< SampleType >::processOutputs(
 
     std::size_t const outputAlignment =
         std::min( alignment, mCoreConvolver.alignment() );
-    std::size_t const coreAlignment = mCoreConvolver.alignment();
+    // The ramp segments start at multiples of the block length.
+    std::size_t const coreAlignment =
+        ( mCoreConvolver.alignment() > 0 ) and
+                ( blockSize % mCoreConvolver.alignment() == 0 )
+            ? mCoreConvolver.alignment()
+            : 0;
 
     efl::ErrorCode res;
     std::size_t const rampBlock = mCurrentRampBlock[ routing.filterIdx ];
-- 
2.43.0


From e90af4c5f58436fab7d7e3d982953d652dc15745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:15 +0000
Subject: [PATCH 006/203] fix: crossfading convolver: filter slots beyond the
 maximum were accepted (out-of-bounds access), and filters loaded after an
 update were muted

---
 src/librbbl/crossfading_convolver_uniform.cpp | 28 ++++++++++++++++++-
 src/librbbl/crossfading_convolver_uniform.hpp |  2 +-
 2 files changed, 28 insertions(+), 2 deletions(-)

diff --git a/src/librbbl/crossfading_convolver_uniform.cpp b/src/librbbl/crossfading_convolver_uniform.cpp
index 060d514..bc42bb5 100644
--- a/src/librbbl/crossfading_convolver_uniform.cpp
+++ b/src/librbbl/crossfading_convolver_uniform.cpp
@@ -44,6 +44,12 @@ CrossfadingConvolverUniform< SampleType >::CrossfadingConvolverUniform(
  , mCurrentRampBlock( maxFilterEntries, mNumRampBlocks - 1 )
  , mCrossoverRamps( 2, blockLength * mNumRampBlocks, alignment )
 {
+  if( initialFilters.numberOfRows() > maxNumberOfFilterEntries() )
+  {
+    throw std::invalid_argument(
+        "CrossfadingConvolverUniform: The initial filters exceed the maximum "
+        "number of filter entries." );
+  }
   initRoutingTable( initialRoutings );
   efl::ErrorCode ret;
   if( ( ret = efl::vectorRamp( mCrossoverRamps.row( 0 ), transitionSamples,
@@ -276,7 +282,16 @@ template< typename SampleType >
 void CrossfadingConvolverUniform< SampleType >::initFilters(
     efl::BasicMatrix< SampleType > const & newFilters )
 {
+  if( newFilters.numberOfRows() > maxNumberOfFilterEntries() )
+  {
+    throw std::invalid_argument(
+        "CrossfadingConvolverUniform::initFilters( ): The initializer exceeds "
+        "the maximum number of filter entries." );
+  }
   mCoreConvolver.initFilters( newFilters );
+  // The filters are loaded into the first filter set.
+  mCurrentFilterOutput.assign( mMaxNumFilters, 0 );
+  mCurrentRampBlock.assign( mMaxNumFilters, mNumRampBlocks - 1 );
 }
 
 template< typename SampleType >
@@ -298,7 +313,12 @@ void CrossfadingConvolverUniform< SampleType >::setImpulseResponse(
     std::size_t alignment )
 {
   // TODO: Avoid code duplication in setTransformedFilter().
-
+  if( filterIdx >= maxNumberOfFilterEntries() )
+  {
+    throw std::invalid_argument(
+        "CrossfadingConvolverUniform::setImpulseResponse(): Filter index "
+        "exceeds the admissible range." );
+  }
   std::size_t const oldFilterSet = mCurrentFilterOutput[ filterIdx ];
   std::size_t const newFilterSet = ( oldFilterSet == 0 ) ? 1 : 0;
   std::size_t const newFilterIndex =
@@ -328,6 +348,12 @@ void CrossfadingConvolverUniform< SampleType >::setTransformedFilter(
     bool startTransition,
     std::size_t alignment )
 {
+  if( filterIdx >= maxNumberOfFilterEntries() )
+  {
+    throw std::invalid_argument(
+        "CrossfadingConvolverUniform::setTransformedFilter(): Filter index "
+        "exceeds the admissible range." );
+  }
   std::size_t const oldFilterSet = mCurrentFilterOutput[ filterIdx ];
   std::size_t const newFilterSet = ( oldFilterSet == 0 ) ? 1 : 0;
   std::size_t const newFilterIndex =
diff --git a/src/librbbl/crossfading_convolver_uniform.hpp b/src/librbbl/crossfading_convolver_uniform.hpp
index 9aff0b0..2e76eac 100644
--- a/src/librbbl/crossfading_convolver_uniform.hpp
+++ b/src/librbbl/crossfading_convolver_uniform.hpp
@@ -112,7 +112,7 @@ public:
 
   std::size_t maxNumberOfFilterEntries() const
   {
-    return mCoreConvolver.maxNumberOfFilterEntries();
+    return mMaxNumFilters;
   }
 
   std::size_t maxFilterLength() const
-- 
2.43.0


From 6ac18545eb4f0b6bb611f4708ffc30b9fe2430ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:15 +0000
Subject: [PATCH 007/203] fix: interpolating convolver swapped the maximum
 numbers of routings and filters

---
 src/librbbl/interpolating_convolver_uniform.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/librbbl/interpolating_convolver_uniform.cpp b/src/librbbl/interpolating_convolver_uniform.cpp
index d853546..71763a1 100644
--- a/src/librbbl/interpolating_convolver_uniform.cpp
+++ b/src/librbbl/interpolating_convolver_uniform.cpp
@@ -33,8 +33,8 @@ InterpolatingConvolverUniform< SampleType >::InterpolatingConvolverUniform(
        numberOfOutputs,
        blockLength,
        maxFilterLength,
-       maxFilterEntries,
        maxRoutingPoints,
+       maxRoutingPoints, // one (interpolated) filter slot per routing point
        transitionSamples,
        initialRoutings,
        efl::BasicMatrix< SampleType >(
-- 
2.43.0


From c6bed3fc214d8b6efc8b4700790aec8da1945525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:05 +0000
Subject: [PATCH 008/203] fix: delay line reported its maximum delay as the
 method delay

---
 src/librbbl/multichannel_delay_line.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/librbbl/multichannel_delay_line.cpp b/src/librbbl/multichannel_delay_line.cpp
index 4d9634b..23cd515 100644
--- a/src/librbbl/multichannel_delay_line.cpp
+++ b/src/librbbl/multichannel_delay_line.cpp
@@ -59,13 +59,13 @@ std::size_t MultichannelDelayLine<SampleType>::blockLength() const
 template< typename SampleType >
 SampleType MultichannelDelayLine<SampleType>::methodDelaySeconds() const
 {
-  return cMaxDelaySamples / cSamplingFrequency;
+  return cMethodDelay / cSamplingFrequency;
 }
 
 template< typename SampleType >
 SampleType MultichannelDelayLine<SampleType>::methodDelaySamples() const
 {
-  return cMaxDelaySamples;
+  return cMethodDelay;
 }
 
 template< typename SampleType >
-- 
2.43.0


From f5dfad94defe8799c2a2c46005ecc71b9a05511d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:30 +0000
Subject: [PATCH 009/203] fix: delay line buffer did not hold the interpolation
 window at the maximum delay

---
 src/librbbl/multichannel_delay_line.cpp |  3 ++-
 src/librbbl/multichannel_delay_line.hpp | 10 +++++-----
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/librbbl/multichannel_delay_line.cpp b/src/librbbl/multichannel_delay_line.cpp
index 23cd515..6482bc9 100644
--- a/src/librbbl/multichannel_delay_line.cpp
+++ b/src/librbbl/multichannel_delay_line.cpp
@@ -31,9 +31,10 @@ MultichannelDelayLine<SampleType>::MultichannelDelayLine( std::size_t numberOfCh
   , cSamplingFrequency( static_cast<SampleType>(samplingFrequency) )
   , cMaxDelaySamples( std::ceil( maxDelaySeconds * samplingFrequency ) )
   , cMethodDelayPolicy( methodDelayPolicy )
-  , mRingbuffer( numberOfChannels, static_cast<std::size_t>(cMaxDelaySamples)+blockLength, alignment ) // Ideally this would include the implementation delay.
   , mInterpolator( FractionalDelayFactory<SampleType>::create( interpolationMethod, blockLength ) )
   , cMethodDelay( mInterpolator ? mInterpolator->methodDelay() : static_cast<SampleType>(0.0) )
+  // Besides the maximum delay, the interpolation window (twice the method delay, plus one sample for rounding) must be available.
+  , mRingbuffer( numberOfChannels, static_cast<std::size_t>(cMaxDelaySamples + std::ceil(2*cMethodDelay)) + 1 + blockLength, alignment )
 {
   if( not mInterpolator )
   {
diff --git a/src/librbbl/multichannel_delay_line.hpp b/src/librbbl/multichannel_delay_line.hpp
index cedeb4b..75adf4d 100644
--- a/src/librbbl/multichannel_delay_line.hpp
+++ b/src/librbbl/multichannel_delay_line.hpp
@@ -163,11 +163,6 @@ private:
    */
   MethodDelayPolicy const cMethodDelayPolicy;
 
-  /**
-   * Circular buffer holding the delayed values.
-   */
-  rbbl::CircularBuffer<SampleType> mRingbuffer;
-
   /**
    * The fractional delay algorihm object.
    * @note this needs to be a shared pointer, because the object is dynamically 
@@ -179,6 +174,11 @@ private:
    * The method delay (implementation delay) of the selected fractional delay algorithm in samples.
    */
   SampleType cMethodDelay;
+
+  /**
+   * Circular buffer holding the delayed values.
+   */
+  rbbl::CircularBuffer<SampleType> mRingbuffer;
 };
 
 } // namespace rbbl
-- 
2.43.0


From 3455e3f69e644748813b41b5c56bcc4f74bcc143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:16 +0000
Subject: [PATCH 010/203] fix: DelayVector/DelayMatrix: parameter change during
 a transition started from a mirrored value instead of the value reached

---
 src/librcl/delay_matrix.cpp | 2 +-
 src/librcl/delay_vector.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/librcl/delay_matrix.cpp b/src/librcl/delay_matrix.cpp
index 5a27d7f..9576abf 100644
--- a/src/librcl/delay_matrix.cpp
+++ b/src/librcl/delay_matrix.cpp
@@ -176,7 +176,7 @@ namespace
                                            std::size_t alignElements )
   {
     // Note: The standard explicitly allows that the output sequence equals one of the input sequences.
-    std::transform( op1, op1+numElements, op2result, op2result, [ratio](ElementType val1, ElementType val2 ){ return ratio*(val2-val1) + val1;} );
+    std::transform( op1, op1+numElements, op2result, op2result, [ratio](ElementType val1, ElementType val2 ){ return ratio*(val1-val2) + val2;} );
     return efl::noError;
   }
 
diff --git a/src/librcl/delay_vector.cpp b/src/librcl/delay_vector.cpp
index 7f4b999..ae4ea22 100644
--- a/src/librcl/delay_vector.cpp
+++ b/src/librcl/delay_vector.cpp
@@ -141,7 +141,7 @@ namespace
                                            std::size_t alignElements )
   {
     // Note: The standard explicitly allows that the output sequence equals one of the input sequences.
-    std::transform( op1, op1+numElements, op2result, op2result, [ratio](ElementType val1, ElementType val2 ){ return ratio*(val2-val1) + val1;} );
+    std::transform( op1, op1+numElements, op2result, op2result, [ratio](ElementType val1, ElementType val2 ){ return ratio*(val1-val2) + val2;} );
     return efl::noError;
   }
 
-- 
2.43.0


From 86d69e58ab2aa49b48d7ee83e22ee690181fa7e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:05 +0000
Subject: [PATCH 011/203] fix: delay line rejected delays at the maximum
 because of rounding in the delay interpolation

---
 src/librbbl/multichannel_delay_line.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/librbbl/multichannel_delay_line.cpp b/src/librbbl/multichannel_delay_line.cpp
index 6482bc9..e4731d4 100644
--- a/src/librbbl/multichannel_delay_line.cpp
+++ b/src/librbbl/multichannel_delay_line.cpp
@@ -5,6 +5,7 @@
 #include <librbbl/circular_buffer.hpp>
 #include <librbbl/fractional_delay_factory.hpp>
 
+#include <algorithm>
 #include <cassert>
 #include <cmath>
 #include <complex>
@@ -106,10 +107,12 @@ SampleType MultichannelDelayLine<SampleType>::
 adjustDelay( SampleType rawDelay ) const
 {
   rawDelay *= cSamplingFrequency; // Scale from seconds to samples.
-  if( rawDelay > cMaxDelaySamples )
+  // Tolerate rounding errors, e.g., from the interpolation between delay values.
+  if( rawDelay > cMaxDelaySamples * (1 + 4 * std::numeric_limits<SampleType>::epsilon()) )
   {
     throw std::out_of_range( "LagrangeInterpolator::interpolate(): Delay exceeds the maximum admissible value." );
   }
+  rawDelay = std::min( rawDelay, cMaxDelaySamples );
   switch( cMethodDelayPolicy )
   {
     case MethodDelayPolicy::Add:
-- 
2.43.0


From 092855e74ed84a89809558316c5943e8619ee647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:21 +0000
Subject: [PATCH 012/203] fix: SignalRouting ignored the controlPort argument
 when an initial routing is given

---
 src/librcl/signal_routing.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/librcl/signal_routing.cpp b/src/librcl/signal_routing.cpp
index 9886466..e1a0ae1 100644
--- a/src/librcl/signal_routing.cpp
+++ b/src/librcl/signal_routing.cpp
@@ -40,7 +40,7 @@ void SignalRouting::setup( std::size_t inputWidth,
                            pml::SignalRoutingParameter const & initialRouting,
                            bool controlPort /*= false*/)
 {
-  setup( inputWidth, outputWidth );
+  setup( inputWidth, outputWidth, controlPort );
   for( auto e : initialRouting )
   {
     pml::SignalRoutingParameter::IndexType const in = e.input;
-- 
2.43.0


From 98bd328cd8ca76a6271f1a4831e28cac3b0ee9db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:41 +0000
Subject: [PATCH 013/203] fix: GainFader failed with an alignment error if the
 block size is not a multiple of the alignment

---
 src/librbbl/gain_fader.cpp | 7 +++++--
 src/librbbl/gain_fader.hpp | 6 ++++++
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/librbbl/gain_fader.cpp b/src/librbbl/gain_fader.cpp
index d8ef10d..d2d574c 100644
--- a/src/librbbl/gain_fader.cpp
+++ b/src/librbbl/gain_fader.cpp
@@ -6,6 +6,8 @@
 
 #include <libvisr/detail/compose_message_string.hpp>
 
+#include <ciso646>
+
 namespace visr
 {
 namespace rbbl
@@ -19,6 +21,7 @@ GainFader( std::size_t blockSize,
  : mBlockSize( blockSize )
  , mInterpolationSamples( interpolationSteps )
  , mInterpolationPeriods( (interpolationSteps + blockSize - 1)/blockSize ) // integer ceil( interpolationSteps / blockSize )
+ , mBlockAlignment( (alignment == 0) or (blockSize % alignment != 0) ? 0 : alignment )
  , mInterpolationRamp( (mInterpolationPeriods+1)*blockSize, alignment )
  , mTempBuffer( blockSize, alignment )
 {
@@ -49,7 +52,7 @@ void GainFader<ElementType>::scale( ElementType const * input, ElementType * out
   efl::ErrorCode res;
   if( (res = efl::vectorRampScaling( input, mInterpolationRamp.data() + blockIndex * mBlockSize,
     output, startGain, endGain-startGain, mBlockSize, false/*accumulate*/,
-    mInterpolationRamp.alignmentElements() )) != efl::noError )
+    mBlockAlignment )) != efl::noError )
   {
     throw std::runtime_error( detail::composeMessageString( "GainFader: Error during scaling operation: ", efl::errorMessage( res )));
   }
@@ -64,7 +67,7 @@ void GainFader<ElementType>::scaleAndAccumulate( ElementType const * input, Elem
   efl::ErrorCode res;
   if( (res = efl::vectorRampScaling( input, mInterpolationRamp.data() + blockIndex * mBlockSize,
     outputAcc, startGain, endGain-startGain, mBlockSize, true/*accumulate*/,
-    mInterpolationRamp.alignmentElements() )) != efl::noError )
+    mBlockAlignment )) != efl::noError )
   {
     throw std::runtime_error( detail::composeMessageString( "GainFader: Error during scaling operation: ", efl::errorMessage( res )));
   }
diff --git a/src/librbbl/gain_fader.hpp b/src/librbbl/gain_fader.hpp
index 0f8baad..bef5b88 100644
--- a/src/librbbl/gain_fader.hpp
+++ b/src/librbbl/gain_fader.hpp
@@ -116,6 +116,12 @@ private:
    */
   std::size_t const mInterpolationPeriods;
 
+  /**
+   * Alignment (in samples) that holds for all sections of the ramp, i.e., for any block index.
+   * Zero (no alignment guarantee) if the block size is not a multiple of the requested alignment.
+   */
+  std::size_t const mBlockAlignment;
+
   /**
    * Precomputed vector of scaling values for computing the output values using interpolated gains.
    * It consists of a linear ramp from 0 to 1 over \p interpolationSteps samples, followed by
-- 
2.43.0


From 507cdb591555d1c8f34308589b9a7de89f177d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:55 +0000
Subject: [PATCH 014/203] fix: GainMatrix jumped to a never-reached target if
 gains are set twice before the next process() call

---
 src/librbbl/gain_matrix.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/librbbl/gain_matrix.cpp b/src/librbbl/gain_matrix.cpp
index eab873e..56a903c 100644
--- a/src/librbbl/gain_matrix.cpp
+++ b/src/librbbl/gain_matrix.cpp
@@ -126,7 +126,7 @@ void GainMatrix<ElementType>::setGainsInternal( efl::BasicMatrix<ElementType> co
   {
     mPreviousGains.swap( mNextGains );
   }
-  else // previous transition is not yet complete.
+  else if( mInterpolationCounter > 0 ) // previous transition is not yet complete. If it has not been started, the starting gains are still in effect.
   {
     // Set the previous gains according to the currently reached interpolation ratio.
     ElementType const ratio = std::min( static_cast<ElementType>(1.0),
-- 
2.43.0


From cd62b559d8e9876b9dd9e2cef0cbacd75fadfb31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:11 +0000
Subject: [PATCH 015/203] fix: GainVector jumped to the target of an unfinished
 transition if new gains are set

---
 src/librcl/gain_vector.cpp | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/librcl/gain_vector.cpp b/src/librcl/gain_vector.cpp
index 97bad89..1401324 100644
--- a/src/librcl/gain_vector.cpp
+++ b/src/librcl/gain_vector.cpp
@@ -103,10 +103,22 @@ void GainVector::setGain( efl::BasicVector< SampleType > const & newGains )
     throw std::invalid_argument("GainVector::setGain(): The number of elements in the argument does not match the number of channels.");
   }
 
-  // Copy the current gain value to the previous gain value.
-  if( efl::vectorCopy( mNextGains.data(), mCurrentGains.data(), mNumberOfChannels ) != efl::noError )
+  if( mInterpolationCounter >= mInterpolationPeriods ) // previous transition is complete
   {
-    throw std::runtime_error( "GainVector::setGain(): Copying of the vector elements failed." );
+    // Copy the current gain value to the previous gain value.
+    if( efl::vectorCopy( mNextGains.data(), mCurrentGains.data(), mNumberOfChannels ) != efl::noError )
+    {
+      throw std::runtime_error( "GainVector::setGain(): Copying of the vector elements failed." );
+    }
+  }
+  else
+  {
+    // Start the new transition from the gain values reached in the unfinished transition.
+    SampleType const ratio = static_cast<SampleType>(mInterpolationCounter * period()) / static_cast<SampleType>(mFader->interpolationSamples());
+    for( std::size_t chIdx( 0 ); chIdx < mNumberOfChannels; ++chIdx )
+    {
+      mCurrentGains[chIdx] += ratio * (mNextGains[chIdx] - mCurrentGains[chIdx]);
+    }
   }
 
   if (efl::vectorCopy(newGains.data(), mNextGains.data(), mNumberOfChannels) != efl::noError)
-- 
2.43.0


From 7a990b05b9b647410aded727b5543882c1c02ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:24 +0000
Subject: [PATCH 016/203] fix: SignalRouting accessed an invalid input channel
 for routings with the (legal) invalid input index

---
 src/librcl/signal_routing.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/librcl/signal_routing.cpp b/src/librcl/signal_routing.cpp
index e1a0ae1..cd99007 100644
--- a/src/librcl/signal_routing.cpp
+++ b/src/librcl/signal_routing.cpp
@@ -92,6 +92,10 @@ void SignalRouting::process()
   {
     pml::SignalRoutingParameter::IndexType inputIdx = std::get<1>( *routeIt );
     pml::SignalRoutingParameter::IndexType outputIdx = std::get<0>( *routeIt );
+    if( inputIdx == pml::SignalRoutingParameter::cInvalidIndex ) // same as having no routing for this output
+    {
+      continue;
+    }
     efl::ErrorCode res = efl::vectorAddInplace( mInput[inputIdx], mOutput[outputIdx], periodSize, cVectorAlignmentSamples );
     if( res != efl::noError )
     {
-- 
2.43.0


From 48feb249600cf134993abad363123b99c502b735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:18 +0000
Subject: [PATCH 017/203] fix: BiquadIirFilter constructed without coefficients
 was silent instead of flat

---
 src/librcl/biquad_iir_filter.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/librcl/biquad_iir_filter.cpp b/src/librcl/biquad_iir_filter.cpp
index 24a08fe..23d8372 100644
--- a/src/librcl/biquad_iir_filter.cpp
+++ b/src/librcl/biquad_iir_filter.cpp
@@ -46,6 +46,17 @@ BiquadIirFilter::BiquadIirFilter( SignalFlowContext const & context,
            cVectorAlignmentSamples )
 {
   mState.zeroFill();
+  // Initialise all sections to a flat response.
+  rbbl::BiquadCoefficient< SampleType > const flatSection;
+  for( std::size_t channelIdx( 0 ); channelIdx < cNumberOfChannels;
+       ++channelIdx )
+  {
+    for( std::size_t biquadIdx( 0 ); biquadIdx < cNumberOfBiquadSections;
+         ++biquadIdx )
+    {
+      setCoefficientsInternal( channelIdx, biquadIdx, flatSection );
+    }
+  }
 }
 
 BiquadIirFilter::BiquadIirFilter(
-- 
2.43.0


From ce8e04f2f481d89e1cb4905c60ebaf23b280754d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:10:10 +0000
Subject: [PATCH 018/203] fix: TimeFrequencyTransform could not be constructed
 with a DFT size much larger than the window

---
 src/librcl/time_frequency_transform.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/librcl/time_frequency_transform.cpp b/src/librcl/time_frequency_transform.cpp
index 32b8405..08ee617 100644
--- a/src/librcl/time_frequency_transform.cpp
+++ b/src/librcl/time_frequency_transform.cpp
@@ -150,11 +150,11 @@ TimeFrequencyTransform::TimeFrequencyTransform(
       window.data(), window.data() + window.size(), mWindow.data(),
       [scaleFactor]( SampleType val ) { return scaleFactor * val; } );
 
-  // If the transform size is larger than the hop size, we have to prepend
+  // If the window is longer than the hop size, we have to prepend
   // the input signal with zeros for the first transforms.
-  if( dftSize > hopSize )
+  if( cWindowLength > hopSize )
   {
-    std::size_t const padSamples{ cDftSize - hopSize };
+    std::size_t const padSamples{ cWindowLength - hopSize };
     efl::BasicVector< SampleType > initData( padSamples, cAlignment );
     initData.zeroFill();
     mInputBuffer.write(
-- 
2.43.0


From e00c98ac16276d0447994f1f815282171179aa9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:10:10 +0000
Subject: [PATCH 019/203] fix: TimeFrequencyTransform failed with an alignment
 error for hop sizes that are not a multiple of the alignment

---
 src/librcl/time_frequency_transform.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/librcl/time_frequency_transform.cpp b/src/librcl/time_frequency_transform.cpp
index 08ee617..f23fd8a 100644
--- a/src/librcl/time_frequency_transform.cpp
+++ b/src/librcl/time_frequency_transform.cpp
@@ -179,7 +179,8 @@ void TimeFrequencyTransform::process()
     {
       efl::ErrorCode res = efl::vectorMultiply(
           mInputBuffer.getReadPointer( channelIndex, blockStartIndex ),
-          mWindow.data(), mCalcBuffer.data(), cWindowLength, cAlignment );
+          mWindow.data(), mCalcBuffer.data(), cWindowLength,
+          0 /* The read position is in general not aligned. */ );
       if( res != efl::noError )
       {
         throw std::runtime_error(
-- 
2.43.0


From 1aac2f2741dd817e272a7e42431e29af9b539540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:10:10 +0000
Subject: [PATCH 020/203] fix: TimeFrequencyInverseTransform lost all but the
 last frame of a period

---
 .../time_frequency_inverse_transform.cpp      | 20 +++++++++----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/src/librcl/time_frequency_inverse_transform.cpp b/src/librcl/time_frequency_inverse_transform.cpp
index 4ec185f..5808845 100644
--- a/src/librcl/time_frequency_inverse_transform.cpp
+++ b/src/librcl/time_frequency_inverse_transform.cpp
@@ -119,17 +119,15 @@ void TimeFrequencyInverseTransform::process()
         throw std::runtime_error(
             "TimeFrequencyInverseTransform: Storing partial results failed." );
       }
-    }
-    // Copy first portion of accumulated result to output port.
-    // Also applies the DFT scaling.
-    // if( ( res = efl::vectorCopy( mCalcBuffer.data(), mOutput[ channelIdx ],
-    //                              period(), cAlignment ) ) != efl::noError )
-    if( ( res = efl::vectorMultiplyConstant( cScalingFactor,
-        mCalcBuffer.data(), mOutput[ channelIdx ],
-        period(), cAlignment ) ) != efl::noError )
-    {
-      throw std::runtime_error(
-          "TimeFrequencyInverseTransform: Error while copying output data." );
+      // Copy the completed samples of this frame to the output port.
+      // Also applies the DFT scaling.
+      if( ( res = efl::vectorMultiplyConstant( cScalingFactor,
+          mCalcBuffer.data(), mOutput[ channelIdx ] + frameIdx * cHopSize,
+          cHopSize, 0 /* The position within the block is in general not aligned. */ ) ) != efl::noError )
+      {
+        throw std::runtime_error(
+            "TimeFrequencyInverseTransform: Error while copying output data." );
+      }
     }
   }
 }
-- 
2.43.0


From 629ec7f8cb9c33e28e25721f795c919af8a0212f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:20:38 +0000
Subject: [PATCH 021/203] fix: internal routing of double-precision audio
 connections failed with an alignment error

The routing components inserted by AudioSignalFlow used the alignment of the
default sample type (in samples) for all sample types, i.e., twice the alignment
guaranteed by the signal pool for double.
---
 src/librrl/signal_routing_internal.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/librrl/signal_routing_internal.cpp b/src/librrl/signal_routing_internal.cpp
index a379abb..a8954f3 100644
--- a/src/librrl/signal_routing_internal.cpp
+++ b/src/librrl/signal_routing_internal.cpp
@@ -57,7 +57,8 @@ void SignalRoutingInternal<SampleType>::process()
   for( std::size_t chIdx(0); chIdx < outputWidth; ++chIdx )
   {
     std::size_t const inIdx = mInputIndices[chIdx];
-    efl::ErrorCode const res = efl::vectorCopy( mInput[inIdx], mOutput[chIdx], blockSize, cVectorAlignmentSamples );
+    efl::ErrorCode const res = efl::vectorCopy( mInput[inIdx], mOutput[chIdx], blockSize,
+                                                 cVectorAlignmentBytes / sizeof(SampleType) );
     if( res != efl::noError )
     {
       throw std::runtime_error( "rrl::SignalRoutingInternal: Copying of sample vector failed." );
-- 
2.43.0


From f6f7ea20a639ba51b3cf662672af9c9aca898dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:20:38 +0000
Subject: [PATCH 022/203] fix: FlexibleBufferWrapper::process() ignored the
 sample stride in the output offset of all but the first chunk

---
 src/librrl/flexible_buffer_wrapper.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/librrl/flexible_buffer_wrapper.cpp b/src/librrl/flexible_buffer_wrapper.cpp
index 48dffc4..101b556 100644
--- a/src/librrl/flexible_buffer_wrapper.cpp
+++ b/src/librrl/flexible_buffer_wrapper.cpp
@@ -158,7 +158,8 @@ void FlexibleBufferWrapper::process( SampleType const * captureSamples,
 
     SampleType const * readPtr =
         mOutputBuffer.getReadPointer( 0, mOutputBufferLevel );
-    SampleType * outputWritePtr = playbackSamples + processedFrames;
+    SampleType * outputWritePtr =
+        playbackSamples + processedFrames * playbackSampleStride;
     for( std::size_t chIdx{ 0 }; chIdx < numPlaybackChannels; ++chIdx )
     {
       copyBuffer( readPtr + chIdx * mOutputBuffer.stride(),
-- 
2.43.0


From 2b7f746de0b9bfe2ccd5f3413545d6a0a77dee93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:20:58 +0000
Subject: [PATCH 023/203] fix: FlexibleBufferWrapper failed (assertion) for
 flows without audio inputs or outputs

---
 src/librrl/flexible_buffer_wrapper.cpp | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/librrl/flexible_buffer_wrapper.cpp b/src/librrl/flexible_buffer_wrapper.cpp
index 101b556..af04f0e 100644
--- a/src/librrl/flexible_buffer_wrapper.cpp
+++ b/src/librrl/flexible_buffer_wrapper.cpp
@@ -50,6 +50,18 @@ void copyBuffer( SampleType const * src,
   }
 }
 
+/**
+ * Retrieve the read position of the first channel, handles buffers without
+ * channels (i.e., flows without audio inputs or outputs).
+ */
+SampleType const *
+firstReadPointer( rbbl::CircularBuffer< SampleType > const & buffer,
+                  std::size_t delay )
+{
+  return buffer.numberOfChannels() == 0 ? nullptr
+                                        : buffer.getReadPointer( 0, delay );
+}
+
 } // unnamed namespace
 
 void FlexibleBufferWrapper::process( SampleType const * const * captureSamples,
@@ -84,8 +96,8 @@ void FlexibleBufferWrapper::process( SampleType const * const * captureSamples,
     if( newBufferLevel == cInternalPeriod )
     {
       assert( mInputBufferLevel == cInternalPeriod );
-      SampleType const * procInputPtr{ mInputBuffer.getReadPointer(
-          0, cInternalPeriod ) };
+      SampleType const * procInputPtr{ firstReadPointer(
+          mInputBuffer, cInternalPeriod ) };
       SampleType * procOutputPtr{ mOutputBuffer.getFirstWritePointer() };
       mFlow.process( procInputPtr, mInputBuffer.stride(), 1, procOutputPtr,
                      mOutputBuffer.stride(), 1 );
@@ -95,7 +107,7 @@ void FlexibleBufferWrapper::process( SampleType const * const * captureSamples,
     }
 
     SampleType const * readPtr =
-        mOutputBuffer.getReadPointer( 0, mOutputBufferLevel );
+        firstReadPointer( mOutputBuffer, mOutputBufferLevel );
     for( std::size_t chIdx{ 0 }; chIdx < numPlaybackChannels; ++chIdx )
     {
       copyBuffer( readPtr + chIdx * mOutputBuffer.stride(),
@@ -146,8 +158,8 @@ void FlexibleBufferWrapper::process( SampleType const * captureSamples,
     if( newBufferLevel == cInternalPeriod )
     {
       assert( mInputBufferLevel == cInternalPeriod );
-      SampleType const * procInputPtr{ mInputBuffer.getReadPointer(
-          0, cInternalPeriod ) };
+      SampleType const * procInputPtr{ firstReadPointer(
+          mInputBuffer, cInternalPeriod ) };
       SampleType * procOutputPtr{ mOutputBuffer.getFirstWritePointer() };
       mFlow.process( procInputPtr, mInputBuffer.stride(), 1, procOutputPtr,
                      mOutputBuffer.stride(), 1 );
@@ -157,7 +169,7 @@ void FlexibleBufferWrapper::process( SampleType const * captureSamples,
     }
 
     SampleType const * readPtr =
-        mOutputBuffer.getReadPointer( 0, mOutputBufferLevel );
+        firstReadPointer( mOutputBuffer, mOutputBufferLevel );
     SampleType * outputWritePtr =
         playbackSamples + processedFrames * playbackSampleStride;
     for( std::size_t chIdx{ 0 }; chIdx < numPlaybackChannels; ++chIdx )
-- 
2.43.0


From 21741c0c1026f6efc08ad3fa1eaa4ef6ddeef2b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:07 +0000
Subject: [PATCH 024/203] fix: audio connections between ports of different
 sample types were accepted

---
 src/librrl/integrity_checking.cpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/librrl/integrity_checking.cpp b/src/librrl/integrity_checking.cpp
index e3ca1b4..ad739e7 100644
--- a/src/librrl/integrity_checking.cpp
+++ b/src/librrl/integrity_checking.cpp
@@ -153,6 +153,11 @@ namespace // unnamed namespace
       }
       (sendPortEntryIt->second)++;
       (receivePortEntryIt->second) ++;
+      if( connection.first.port()->sampleType() != connection.second.port()->sampleType() )
+      {
+        messages << "The send and receive sample types of the connection " << connection.first << "->" << connection.second << " do not match." << std::endl;
+        result = false;
+      }
     }
     for( AudioConnectionCountTable::value_type const & recEntry : receiveChannelTable )
     {
@@ -170,12 +175,6 @@ namespace // unnamed namespace
         result = false;
         continue;
       }
-      if( recEntry.first.port()->sampleType() != recEntry.first.port()->sampleType() )
-      {
-        messages << "The send and receive sample types of the connection " << recEntry.first << "->" << recEntry.second << "do not match.\n";
-        result = false;
-        continue;
-      }
     }
 
     // Ths might be turned into a warning instead, but requiring the user to terminate all dangling outputs reduces potential modelling errors.
-- 
2.43.0


From 444e19953c4db6ce4df6d93837b8210f94a96aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:34 +0000
Subject: [PATCH 025/203] fix: several senders connected to a parameter port of
 a composite component were accepted, all but one being ignored

---
 src/librrl/parameter_connection_map.cpp | 61 ++++++++++++++++---------
 1 file changed, 39 insertions(+), 22 deletions(-)

diff --git a/src/librrl/parameter_connection_map.cpp b/src/librrl/parameter_connection_map.cpp
index 40c9f69..9f21c42 100644
--- a/src/librrl/parameter_connection_map.cpp
+++ b/src/librrl/parameter_connection_map.cpp
@@ -90,6 +90,44 @@ bool fillRecursive( ParameterConnectionMap & res, impl::ComponentImplementation
 }
 
 
+namespace // unnamed
+{
+
+/**
+ * Follow the connections from a placeholder port back to all "real" senders, and add the respective
+ * connections to the result.
+ */
+void resolveSenders( ParameterConnectionMap const & fullConnections,
+                     impl::ParameterPortBaseImplementation * receiver,
+                     impl::ParameterPortBaseImplementation * placeholder,
+                     std::size_t recursionCount,
+                     ParameterConnectionMap & flatConnections )
+{
+  // Last line of defence against a closed loop in the flow.
+  if( recursionCount > fullConnections.size() )
+  {
+    throw std::runtime_error( "Audio signal connections: closed loop detected in placeholder port connections." );
+  }
+  auto const senders = fullConnections.equal_range( placeholder );
+  if( senders.first == senders.second )
+  {
+    throw std::invalid_argument( "Unexpected error: unconnected receive port." );
+  }
+  for( auto it( senders.first ); it != senders.second; ++it )
+  {
+    if( isPlaceholderPort( it->second ) )
+    {
+      resolveSenders( fullConnections, receiver, it->second, recursionCount + 1, flatConnections );
+    }
+    else
+    {
+      flatConnections.insert( std::make_pair( receiver, it->second ) );
+    }
+  }
+}
+
+} // unnamed namespace
+
 ParameterConnectionMap resolvePlaceholders( ParameterConnectionMap const & fullConnections )
 {
   ParameterConnectionMap flatConnections;
@@ -107,28 +145,7 @@ ParameterConnectionMap resolvePlaceholders( ParameterConnectionMap const & fullC
     }
     else // The sender is a placeholder
     {
-      std::size_t const recursionLimit = fullConnections.size(); // Last line of defence against a closed loop in the flow.
-      std::size_t recursionCount = 1;
-
-      ParameterConnectionMap::const_iterator findIt = fullConnections.find( rawConnection.second );
-      for( ;; )
-      {
-        if( findIt == fullConnections.end() )
-        {
-          throw std::invalid_argument( "Unexpected error: unconnected receive port." );
-        }
-
-        if( not isPlaceholderPort( findIt->second ) )
-        {
-          flatConnections.insert( std::make_pair( rawConnection.first, findIt->second ) );
-          break;
-        }
-        if( ++recursionCount >= recursionLimit )
-        {
-          throw std::runtime_error( "Audio signal connections: closed loop detected in placeholder port connections." );
-        }
-        findIt = fullConnections.find( findIt->second );
-      }
+      resolveSenders( fullConnections, rawConnection.first, rawConnection.second, 1, flatConnections );
     }
   }
 
-- 
2.43.0


From 9082ff8d15f1a5374be51cb85ac5b21ccae49ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:34 +0000
Subject: [PATCH 026/203] fix: InterpolationParameterConfig::compare() with a
 generic config argument always returned true

---
 src/libpml/interpolation_parameter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libpml/interpolation_parameter.cpp b/src/libpml/interpolation_parameter.cpp
index 08f8d7e..db63ab9 100644
--- a/src/libpml/interpolation_parameter.cpp
+++ b/src/libpml/interpolation_parameter.cpp
@@ -29,8 +29,8 @@ bool InterpolationParameterConfig::compare( ParameterConfigBase const & rhs ) co
 {
   try
   {
-    // InterpolationParameterConfig const & iParam = dynamic_cast<InterpolationParameterConfig const &>(rhs);
-    return true; // compare( iParam );
+    InterpolationParameterConfig const & iParam = dynamic_cast<InterpolationParameterConfig const &>(rhs);
+    return compare( iParam );
   }
   catch( std::bad_cast const & /*ex*/ )
   {
-- 
2.43.0


From bdeba2d466efddf2cf014a5daef438cd12b8f86e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:01 +0000
Subject: [PATCH 027/203] fix: encoded point sources with extent lacked the
 mandatory diffuseness attribute

---
 src/libobjectmodel/point_source_extent_parser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libobjectmodel/point_source_extent_parser.cpp b/src/libobjectmodel/point_source_extent_parser.cpp
index 3eb4de1..dda19fa 100644
--- a/src/libobjectmodel/point_source_extent_parser.cpp
+++ b/src/libobjectmodel/point_source_extent_parser.cpp
@@ -41,7 +41,7 @@ write( Object const & obj, boost::property_tree::ptree & tree ) const
   // note: cannot check for object type id since obj might be a subclass of PointSource
   PointSourceExtent const& pseObj = dynamic_cast<PointSourceExtent const&>(obj);
 
-  PointSourceParser::write( obj, tree );
+  PointSourceWithDiffusenessParser::write( obj, tree );
   tree.put<PointSource::Coordinate>( "width", pseObj.width() );
   tree.put<PointSource::Coordinate>( "height", pseObj.height() );
   tree.put<PointSource::Coordinate>( "depth", pseObj.depth() );
-- 
2.43.0


From bee5b776ca24c7a6755a31ffd4fb41199dcce30c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:01 +0000
Subject: [PATCH 028/203] fix: SceneDecoder lost object updates of messages
 that do not contain all objects, or that arrive in the same block

---
 src/librcl/scene_decoder.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/librcl/scene_decoder.cpp b/src/librcl/scene_decoder.cpp
index 5a8e730..fd29f0f 100644
--- a/src/librcl/scene_decoder.cpp
+++ b/src/librcl/scene_decoder.cpp
@@ -29,14 +29,15 @@ SceneDecoder::~SceneDecoder()
 
 void SceneDecoder::process()
 {
-  objectmodel::ObjectVector & objects = mObjectVectorOutput.data();
   while( not mDatagramInput.empty() )
   {
     char const * nextMsg = mDatagramInput.front().str();
     try
     {
-      objectmodel::ObjectVectorParser::updateObjectVector( nextMsg, objects );
-      mObjectVectorOutput.swapBuffers();
+      // Messages are incremental updates: They must be applied to the most recent scene, therefore the current
+      // write buffer is used for each message, and the new contents are retained when swapping the buffers.
+      objectmodel::ObjectVectorParser::updateObjectVector( nextMsg, mObjectVectorOutput.data() );
+      mObjectVectorOutput.swapBuffers( true );
     }
     catch( std::exception const & ex )
     {
-- 
2.43.0


From e91027bda43c8917727f0b9b559b9436c0d09096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:29 +0000
Subject: [PATCH 029/203] fix: encoding a channel object without channels
 accessed invalid memory

---
 src/libobjectmodel/channel_object_parser.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/libobjectmodel/channel_object_parser.cpp b/src/libobjectmodel/channel_object_parser.cpp
index 2dfe62c..89d6bfb 100644
--- a/src/libobjectmodel/channel_object_parser.cpp
+++ b/src/libobjectmodel/channel_object_parser.cpp
@@ -149,10 +149,11 @@ std::ostream & operator<<( std::ostream & str, ChannelObject::OutputChannelList
 
 std::ostream & operator<<( std::ostream & str, ChannelObject::OutputChannelContainer const & outChannels )
 {
-  if( not outChannels.empty() )
+  if( outChannels.empty() )
   {
-    str << outChannels[0];
+    return str;
   }
+  str << outChannels[0];
   for( ChannelObject::OutputChannelContainer::const_iterator runIt( outChannels.begin() + 1 );
     runIt != outChannels.end(); ++runIt )
   {
-- 
2.43.0


From a21a28d4f7e0852f30bdb21bfd9b93fbf8342786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:29 +0000
Subject: [PATCH 030/203] fix: invalid index and float sequences were reported
 by throwing a character pointer instead of an exception object

---
 src/librbbl/float_sequence.cpp | 2 +-
 src/librbbl/index_sequence.cpp | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/librbbl/float_sequence.cpp b/src/librbbl/float_sequence.cpp
index aa1df4b..7ea864a 100644
--- a/src/librbbl/float_sequence.cpp
+++ b/src/librbbl/float_sequence.cpp
@@ -90,7 +90,7 @@ FloatSequence<ElementType>::FloatSequence( std::string const & val )
 
         if( std::abs(inc) < std::numeric_limits<ElementType>::epsilon() )
         {
-          throw("FloatSequence: The increment of a range must not be zero.");
+          throw std::invalid_argument( "FloatSequence: The increment of a range must not be zero." );
         }
         ElementType val = start;
         if( inc > 0 )
diff --git a/src/librbbl/index_sequence.cpp b/src/librbbl/index_sequence.cpp
index 6b9a782..33ecdc1 100644
--- a/src/librbbl/index_sequence.cpp
+++ b/src/librbbl/index_sequence.cpp
@@ -51,7 +51,7 @@ IndexSequence::IndexSequence( std::string const & val )
         int const val = mStack[0];
         if( val < 0 )
         {
-          throw("IndexSequence: Indices must be greater or equal than zero.");
+          throw std::invalid_argument( "IndexSequence: Indices must be greater or equal than zero." );
         }
         mContents.push_back( static_cast<IndexType>(val) );
         break;
@@ -62,7 +62,7 @@ IndexSequence::IndexSequence( std::string const & val )
         int const end = mStack[1];
         if( start < 0 or end < 0 )
         {
-          throw("IndexSequence: The start and end values of a range must be greater or equal than zero.");
+          throw std::invalid_argument( "IndexSequence: The start and end values of a range must be greater or equal than zero." );
         }
         IndexType val = static_cast<IndexType>(mStack[0]);
         while( val <= static_cast<IndexType>(end) )
@@ -78,11 +78,11 @@ IndexSequence::IndexSequence( std::string const & val )
         int const end = mStack[2];
         if( start < 0 or end < 0 )
         {
-          throw("IndexSequence: The start and end values of a range must be greater or equal than zero.");
+          throw std::invalid_argument( "IndexSequence: The start and end values of a range must be greater or equal than zero." );
         }
         if( inc == 0 )
         {
-          throw("IndexSequence: The increment of a range must not be zero.");
+          throw std::invalid_argument( "IndexSequence: The increment of a range must not be zero." );
         }
         int val = start;
         if( inc > 0 )
-- 
2.43.0


From 15cad207356b34395011ce0cb72066e24a40755f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:14 +0000
Subject: [PATCH 031/203] fix: index ranges ending near the largest integer
 overflowed and never ended

---
 src/librbbl/index_sequence.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/librbbl/index_sequence.cpp b/src/librbbl/index_sequence.cpp
index 33ecdc1..d637185 100644
--- a/src/librbbl/index_sequence.cpp
+++ b/src/librbbl/index_sequence.cpp
@@ -84,12 +84,13 @@ IndexSequence::IndexSequence( std::string const & val )
         {
           throw std::invalid_argument( "IndexSequence: The increment of a range must not be zero." );
         }
-        int val = start;
+        // Use a wider type because the value after the last element might exceed the range of int.
+        long long val = start;
         if( inc > 0 )
         {
           while( val <= end )
           {
-            mContents.push_back( val );
+            mContents.push_back( static_cast<IndexType>(val) );
             val += inc;
           }
         }
@@ -97,7 +98,7 @@ IndexSequence::IndexSequence( std::string const & val )
         {
           while( val >= end )
           {
-            mContents.push_back( val );
+            mContents.push_back( static_cast<IndexType>(val) );
             val += inc;
           }
         }
-- 
2.43.0


From a72d0422af2c1dafb84fa94e86ad6de63f4c1d96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:14 +0000
Subject: [PATCH 032/203] fix: reject floating-point ranges that never reach
 their end

---
 src/librbbl/float_sequence.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/librbbl/float_sequence.cpp b/src/librbbl/float_sequence.cpp
index 7ea864a..c7ae18a 100644
--- a/src/librbbl/float_sequence.cpp
+++ b/src/librbbl/float_sequence.cpp
@@ -76,6 +76,7 @@ FloatSequence<ElementType>::FloatSequence( std::string const & val )
       {
         ElementType val = mStack[0];
         ElementType const end = mStack[1];
+        checkProgress( val, static_cast<ElementType>(1.0), end );
         while( val <= end )
         {
           mContents.push_back( val++ );
@@ -92,6 +93,7 @@ FloatSequence<ElementType>::FloatSequence( std::string const & val )
         {
           throw std::invalid_argument( "FloatSequence: The increment of a range must not be zero." );
         }
+        checkProgress( start, inc, end );
         ElementType val = start;
         if( inc > 0 )
         {
@@ -117,6 +119,18 @@ FloatSequence<ElementType>::FloatSequence( std::string const & val )
       mStack.clear();
     }
 
+    /**
+     * Reject ranges that never reach their end because the increment gets lost in the rounding.
+     */
+    static void checkProgress( ElementType start, ElementType inc, ElementType end )
+    {
+      bool const nonEmpty = (inc > 0) ? (start <= end) : (start >= end);
+      if( nonEmpty and ((start + inc == start) or (end + inc == end)) )
+      {
+        throw std::invalid_argument( "FloatSequence: The increment of a range is too small compared to its start or end value." );
+      }
+    }
+
     std::vector<ElementType> mStack;
     ContainerType mContents;
   };
-- 
2.43.0


From e27909988435c21c7f643c1794aacef106c1f77c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:14 +0000
Subject: [PATCH 033/203] fix: accept whitespace as separator between signal
 routing entries

---
 src/libpml/signal_routing_parameter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libpml/signal_routing_parameter.cpp b/src/libpml/signal_routing_parameter.cpp
index 679650a..20f5586 100644
--- a/src/libpml/signal_routing_parameter.cpp
+++ b/src/libpml/signal_routing_parameter.cpp
@@ -125,7 +125,7 @@ bool SignalRoutingParameter::parse( std::string const & encoded )
                                   boost::placeholders::_1 ) ] >>
           '=' >> qi::uint_[ boost::bind( &ParseState::setOutIdx, &state,
                                          boost::placeholders::_1 ) ] ) %
-        ( ',' | qi::blank ) ),
+        -qi::lit( ',' ) ),
       qi::ascii::space );
 
   if( ( not parseRet ) or ( first != last ) )
-- 
2.43.0


From f6810919dcc0f91c7ecdfa72fda04283562fd2b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:14 +0000
Subject: [PATCH 034/203] fix: out-of-bounds access in filter routing lists
 with a mismatching number of filter indices

---
 src/librbbl/filter_routing.cpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/librbbl/filter_routing.cpp b/src/librbbl/filter_routing.cpp
index aa6d76d..cf661ca 100644
--- a/src/librbbl/filter_routing.cpp
+++ b/src/librbbl/filter_routing.cpp
@@ -92,12 +92,9 @@ FilterRoutingList::FilterRoutingList( std::initializer_list<FilterRouting> const
     }
     // Special case: If both input and output indices are scalar, the filter cpec cannot be non-scalar, because this would mean multiple
     // routings for the same (input,output) combination.
-    if( filterIndices.size( ) != numEntries )
+    if( (filterIndices.size( ) != 1) and( filterIndices.size( ) != numEntries ) )
     {
-      if( (numEntries == 1) and( filterIndices.size( ) != 1 ) )
-      {
-        throw std::invalid_argument( "FilterRoutingList:parseJson: All non-scalar entries must have the same number of indices" );
-      }
+      throw std::invalid_argument( "FilterRoutingList:parseJson: All non-scalar entries must have the same number of indices" );
     }
     // The gainVector entry cannot change the width of the filter routing definition, because that would mean that multiple
     // routings with the same {in,out,filter} but potentially different gains would be created.
-- 
2.43.0


From 1abc423a5d6b84e15a8554ebe1e3f7ca22f5aacf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:14 +0000
Subject: [PATCH 035/203] fix: out-of-bounds access in sparse gain routing
 lists with a mismatching number of column indices

---
 src/librbbl/sparse_gain_routing.cpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/librbbl/sparse_gain_routing.cpp b/src/librbbl/sparse_gain_routing.cpp
index 6a5da9e..4218c6a 100644
--- a/src/librbbl/sparse_gain_routing.cpp
+++ b/src/librbbl/sparse_gain_routing.cpp
@@ -90,12 +90,9 @@ SparseGainRoutingList& SparseGainRoutingList::operator=( const SparseGainRouting
     }
     // Special case: If both input and output indices are scalar, the filter cpec cannot be non-scalar, because this would mean multiple
     // routings for the same (input,output) combination.
-    if( columnIndices.size( ) != numEntries )
+    if( (columnIndices.size( ) != 1) and( columnIndices.size( ) != numEntries ) )
     {
-      if( (numEntries == 1) and( columnIndices.size( ) != 1 ) )
-      {
-        throw std::invalid_argument( "SparseGainRoutingList:parseJson: All non-scalar entries must have the same number of indices" );
-      }
+      throw std::invalid_argument( "SparseGainRoutingList:parseJson: All non-scalar entries must have the same number of indices" );
     }
     // The gainVector entry cannot change the width of the filter routing definition, because that would mean that multiple
     // routings with the same {in,out,filter} but potentially different gains would be created.
-- 
2.43.0


From 281b43c52ec627946dbf42ddd525ec4a3b554a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:14 +0000
Subject: [PATCH 036/203] fix: use the documented default for missing gains in
 sparse gain routing lists

---
 src/librbbl/sparse_gain_routing.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/librbbl/sparse_gain_routing.cpp b/src/librbbl/sparse_gain_routing.cpp
index 4218c6a..13c894d 100644
--- a/src/librbbl/sparse_gain_routing.cpp
+++ b/src/librbbl/sparse_gain_routing.cpp
@@ -69,7 +69,7 @@ SparseGainRoutingList& SparseGainRoutingList::operator=( const SparseGainRouting
     std::string const entryIdxStr = routingNode.get<std::string>( "index" );
     std::string const rowIdxStr = routingNode.get<std::string>( "row" );
     std::string const columnIdxStr = routingNode.get<std::string>( "column" );
-    std::string const gain = routingNode.get<std::string>( "gain" );
+    std::string const gain = routingNode.get<std::string>( "gain", "1.0" );
 
     IndexSequence const entryIndices( entryIdxStr );
     IndexSequence const rowIndices( rowIdxStr );
-- 
2.43.0


From 1698ed8a9a78ac625b1c24144ccaedb4fe253efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:06 +0000
Subject: [PATCH 037/203] fix: writing a list of parametric IIR coefficients to
 JSON failed with an assertion

---
 src/librbbl/parametric_iir_coefficient.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/librbbl/parametric_iir_coefficient.cpp b/src/librbbl/parametric_iir_coefficient.cpp
index 38d5732..524cdbd 100644
--- a/src/librbbl/parametric_iir_coefficient.cpp
+++ b/src/librbbl/parametric_iir_coefficient.cpp
@@ -418,7 +418,7 @@ void ParametricIirCoefficientList< CoefficientType >::writeJson( boost::property
   {
     boost::property_tree::ptree child;
     el.writeJson( child );
-    tree.add_child("", child ); // Adding unnamed childs creates a JSON array.
+    tree.push_back( std::make_pair( "", child ) ); // Adding unnamed childs creates a JSON array.
   }
 }
 
-- 
2.43.0


From 5b9ded0d8c5d4eb462e2b91f02a31f4e48012900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:06 +0000
Subject: [PATCH 038/203] fix: writing parametric IIR coefficients to a JSON
 stream or string had no effect

---
 src/librbbl/parametric_iir_coefficient.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/librbbl/parametric_iir_coefficient.cpp b/src/librbbl/parametric_iir_coefficient.cpp
index 524cdbd..909781d 100644
--- a/src/librbbl/parametric_iir_coefficient.cpp
+++ b/src/librbbl/parametric_iir_coefficient.cpp
@@ -296,6 +296,7 @@ void ParametricIirCoefficient< CoefficientType >::writeJson( std::basic_ostream<
 {
   boost::property_tree::ptree tree;
   writeJson( tree );
+  boost::property_tree::write_json( stream, tree );
 }
 
 template< typename CoefficientType >
-- 
2.43.0


From 0b55a36500018de6070c944448d058a2097ebce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:06 +0000
Subject: [PATCH 039/203] fix: parametric IIR coefficients written to XML used
 the JSON structure and could not be read again

---
 src/libobjectmodel/object_parser.cpp       | 2 +-
 src/librbbl/parametric_iir_coefficient.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libobjectmodel/object_parser.cpp b/src/libobjectmodel/object_parser.cpp
index 1292fe6..aa63af8 100644
--- a/src/libobjectmodel/object_parser.cpp
+++ b/src/libobjectmodel/object_parser.cpp
@@ -74,7 +74,7 @@ ObjectParser::~ObjectParser() = default;
   if( !obj.eqCoefficients().empty() )
   {
     boost::property_tree::ptree eqNode;
-    obj.eqCoefficients().writeXml( eqNode );
+    obj.eqCoefficients().writeJson( eqNode );
     tree.add_child( "eq", eqNode );
   }
 }
diff --git a/src/librbbl/parametric_iir_coefficient.cpp b/src/librbbl/parametric_iir_coefficient.cpp
index 909781d..7e2c255 100644
--- a/src/librbbl/parametric_iir_coefficient.cpp
+++ b/src/librbbl/parametric_iir_coefficient.cpp
@@ -452,7 +452,7 @@ void ParametricIirCoefficientList< CoefficientType >::writeXml( boost::property_
   for( Element const & el : *this )
   {
     boost::property_tree::ptree child;
-    el.writeJson( child );
+    el.writeXml( child );
     tree.add_child( "eq", child ); // XML needs named nodes
   }
 }
-- 
2.43.0


From a82c79ec3dafece11170ed168b51c870dcfab2cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:06 +0000
Subject: [PATCH 040/203] fix: XML text of a single parametric IIR section
 could be neither read nor written

---
 src/librbbl/parametric_iir_coefficient.cpp | 28 ++++++++++------------
 1 file changed, 12 insertions(+), 16 deletions(-)

diff --git a/src/librbbl/parametric_iir_coefficient.cpp b/src/librbbl/parametric_iir_coefficient.cpp
index 7e2c255..f727aaa 100644
--- a/src/librbbl/parametric_iir_coefficient.cpp
+++ b/src/librbbl/parametric_iir_coefficient.cpp
@@ -236,13 +236,15 @@ void ParametricIirCoefficient< CoefficientType >::loadJson( std::string const &
 template< typename CoefficientType >
 void ParametricIirCoefficient< CoefficientType >::loadXml( boost::property_tree::ptree const & tree )
 {
-  boost::property_tree::write_xml( std::cout, tree );
+  // The passed node is either the eq element itself or a document containing it.
+  boost::property_tree::ptree const & eqTree = tree.count( "eq" ) == 0
+    ? tree : tree.get_child( "eq" );
 
-  std::string const & typeStr = tree.get<std::string>( "<xmlattr>.type" );
+  std::string const typeStr = eqTree.get<std::string>( "<xmlattr>.type" );
   Type const typeId  = stringToTypeId( typeStr );
-  CoefficientType const frequency = tree.get<CoefficientType>( "<xmlattr>.f" );
-  CoefficientType const quality = tree.get<CoefficientType>( "<xmlattr>.q" );
-  boost::optional<CoefficientType> const gainOpt = tree.get_optional<CoefficientType>( "<xmlattr>.gain" );
+  CoefficientType const frequency = eqTree.get<CoefficientType>( "<xmlattr>.f" );
+  CoefficientType const quality = eqTree.get<CoefficientType>( "<xmlattr>.q" );
+  boost::optional<CoefficientType> const gainOpt = eqTree.get_optional<CoefficientType>( "<xmlattr>.gain" );
   setType( typeId );
   setFrequency( frequency );
   setQuality( quality );
@@ -267,16 +269,8 @@ void ParametricIirCoefficient<CoefficientType>::loadXml( std::basic_istream<char
 template< typename CoefficientType >
 void ParametricIirCoefficient<CoefficientType>::loadXml( std::string const & str )
 {
-  boost::property_tree::ptree tree;
-  try
-  {
-    read_xml( str, tree );
-  }
-  catch( std::exception const & ex )
-  {
-    throw std::invalid_argument( std::string( "Error while parsing a XML ParametricIirCoefficient node: " ) + ex.what() );
-  }
-  loadXml( tree );
+  std::stringstream stream( str );
+  loadXml( stream );
 }
 
 template< typename CoefficientType >
@@ -322,8 +316,10 @@ void ParametricIirCoefficient< CoefficientType >::writeXml( boost::property_tree
 template< typename CoefficientType >
 void ParametricIirCoefficient< CoefficientType >::writeXml( std::basic_ostream<char> & stream ) const
 {
+  boost::property_tree::ptree eqTree;
+  writeXml( eqTree );
   boost::property_tree::ptree tree;
-  writeXml( tree );
+  tree.add_child( "eq", eqTree ); // An XML document needs a named element.
   boost::property_tree::write_xml( stream, tree );
 }
 
-- 
2.43.0


From 4a4daf3920535e9f6e40e0b7d014312503ec61cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:06 +0000
Subject: [PATCH 041/203] fix: biquad matrices with rows of different sizes
 were accepted

---
 src/librbbl/biquad_coefficient.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/librbbl/biquad_coefficient.cpp b/src/librbbl/biquad_coefficient.cpp
index c2c512a..e535e9e 100644
--- a/src/librbbl/biquad_coefficient.cpp
+++ b/src/librbbl/biquad_coefficient.cpp
@@ -554,7 +554,7 @@ void BiquadCoefficientMatrix<CoeffType>::loadJson( boost::property_tree::ptree c
     assert( numBiquads != unInitMarker ); // Check that initialisation is performed during the first run.
     if( rowFilters.size() != numBiquads )
     {
-      std::invalid_argument( "BiquadCoefficientMatrix::loadJSON(): Encountered matrix rows with differing sizes." );
+      throw std::invalid_argument( "BiquadCoefficientMatrix::loadJSON(): Encountered matrix rows with differing sizes." );
     }
     setFilter( rowIdx, rowFilters );
   }
-- 
2.43.0


From fe3bf13dcb9d1366a5a169a50f0822e2c49eb9da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:07 +0000
Subject: [PATCH 042/203] fix: reading vectors and matrices from audio files
 depended on uninitialised memory

---
 src/libpml/matrix_parameter.cpp | 2 +-
 src/libpml/vector_parameter.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libpml/matrix_parameter.cpp b/src/libpml/matrix_parameter.cpp
index 0b85f74..9076b66 100644
--- a/src/libpml/matrix_parameter.cpp
+++ b/src/libpml/matrix_parameter.cpp
@@ -274,7 +274,7 @@ MatrixParameter<ElementType>::fromAudioFile( std::string const & fileName, std::
   {
     throw std::invalid_argument( "MatrixParameter::fromAudioFile(): The specified file name does not exist." );
   }
-  SF_INFO fileInfo;
+  SF_INFO fileInfo = SF_INFO(); // libsndfile evaluates the format field before opening.
   SNDFILE* fileHandle = nullptr;
   fileHandle = sf_open( file.string().c_str(), SFM_READ, &fileInfo );
   if( not fileHandle )
diff --git a/src/libpml/vector_parameter.cpp b/src/libpml/vector_parameter.cpp
index 82bd9c0..d44b9a7 100644
--- a/src/libpml/vector_parameter.cpp
+++ b/src/libpml/vector_parameter.cpp
@@ -212,7 +212,7 @@ VectorParameter<ElementType>::fromAudioFile( std::string const & fileName, std::
   {
     throw std::invalid_argument( "VectorParameter::fromAudioFile(): The specified file name does not exist." );
   }
-  SF_INFO fileInfo;
+  SF_INFO fileInfo = SF_INFO(); // libsndfile evaluates the format field before opening.
   SNDFILE* fileHandle = nullptr;
   fileHandle = sf_open( file.string().c_str(), SFM_READ, &fileInfo );
   if( not fileHandle )
-- 
2.43.0


From 683bbf2392b717998c0bc95e0f6fe44d76747f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:00:03 +0000
Subject: [PATCH 043/203] fix: spherical interpolation between equal
 quaternions yielded NaNs

---
 src/librbbl/quaternion.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/librbbl/quaternion.cpp b/src/librbbl/quaternion.cpp
index b78f958..67a568b 100644
--- a/src/librbbl/quaternion.cpp
+++ b/src/librbbl/quaternion.cpp
@@ -376,6 +376,11 @@ interpolateSpherical( Quaternion< CoordinateType > const& pos0,
     std::min( static_cast< CoordinateType >(1.0),
       std::max( static_cast< CoordinateType >(-1.0),
         dot( normalise(pos0), normalise(pos1) ) ) ) );
+  if( omega < std::numeric_limits< CoordinateType >::epsilon() )
+  {
+    // Avoid a division by zero if the orientations coincide.
+    return (static_cast<CoordinateType>(1.0)-tInterp) * pos0 + tInterp * pos1;
+  }
   CoordinateType const sinOmega = std::sin( omega );
   CoordinateType const sf1 = std::sin((static_cast<CoordinateType>(1.0)-tInterp)*omega) / sinOmega;
   CoordinateType const sf2 = std::sin(tInterp*omega) / sinOmega;
-- 
2.43.0


From 6a7cf086d989cff9f1e697027a3558dcd5bc320b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:01:40 +0000
Subject: [PATCH 044/203] fix: angular distance between quaternions used the
 square root of the real part

---
 src/librbbl/quaternion.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/librbbl/quaternion.cpp b/src/librbbl/quaternion.cpp
index 67a568b..e0d9480 100644
--- a/src/librbbl/quaternion.cpp
+++ b/src/librbbl/quaternion.cpp
@@ -334,7 +334,7 @@ CoordinateType angleNormalised( Quaternion< CoordinateType > const& q1,
   // First (w) component of the difference rotation quaternion q1*conj(q2)
   // Note: Despite the above formula, this is the standard dot product (according to the source)
   CT const wDot{ dot( q1, q2 ) };
-  CT const wDiff{ std::sqrt( std::abs( wDot ) ) };
+  CT const wDiff{ std::abs( wDot ) };
   // Clip using min/max to avoid arguments with  abs( x ) > 1.0 due to numerical errors.
   return static_cast<CT>(2.0)* std::acos( std::max( std::min( wDiff, static_cast<CT>(1.0) ),
     static_cast<CT>(-1.0) ) );
-- 
2.43.0


From 55c53ee5aaf403470abf9eafeb7c9509331e151d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:01:55 +0000
Subject: [PATCH 045/203] fix: the quaternion constructor ignored the normalise
 argument

---
 src/librbbl/quaternion.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/librbbl/quaternion.cpp b/src/librbbl/quaternion.cpp
index e0d9480..3a1dfb5 100644
--- a/src/librbbl/quaternion.cpp
+++ b/src/librbbl/quaternion.cpp
@@ -26,6 +26,10 @@ Quaternion< CoordinateType >::Quaternion( Coordinate w, Coordinate x,
                                           bool normalise /*= false*/ )
  : mQuat{ w, x, y, z }
 {
+  if( normalise )
+  {
+    this->normalise();
+  }
 }
 
 template< typename CoordinateType >
-- 
2.43.0


From 9a610f179bf9baec13eb9ce944bb6709bbf809d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:02:44 +0000
Subject: [PATCH 046/203] fix: writing a listener position to a string ignored
 the prettyPrint argument

---
 src/libpml/listener_position.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libpml/listener_position.cpp b/src/libpml/listener_position.cpp
index 239173f..c43e710 100644
--- a/src/libpml/listener_position.cpp
+++ b/src/libpml/listener_position.cpp
@@ -395,7 +395,7 @@ std::string ListenerPosition::writeJson( RotationFormat rotationFormat,
                                          bool prettyPrint /*=false*/ ) const
 {
   std::stringstream stream;
-  writeJson( stream, rotationFormat );
+  writeJson( stream, rotationFormat, prettyPrint );
   return stream.str();
 }
 
-- 
2.43.0


From 9d4f7909e21edf997bcfc7df1b3caffd9ef2f92b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:02:49 +0000
Subject: [PATCH 047/203] fix: the elevation of the coordinate origin was NaN

---
 src/libefl/cartesian_spherical_conversion.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libefl/cartesian_spherical_conversion.hpp b/src/libefl/cartesian_spherical_conversion.hpp
index fe3ce38..bee9c77 100644
--- a/src/libefl/cartesian_spherical_conversion.hpp
+++ b/src/libefl/cartesian_spherical_conversion.hpp
@@ -49,7 +49,7 @@ std::tuple< T, T, T > cartesian2spherical( T x, T y, T z )
 {
   T const radius = std::sqrt( x*x + y*y + z*z );
   T const az = std::atan2( y, x );
-  T const el = std::asin( z / radius );
+  T const el = std::atan2( z, std::sqrt( x*x + y*y ) );
   return std::make_tuple( az, el, radius );
 }
 
-- 
2.43.0


From 6150d945eaacdad44c2dfeb1f3e0c7b4011fed98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:03:34 +0000
Subject: [PATCH 048/203] fix: listener positions of a smaller face ID were
 ignored if older than those of another face

---
 src/librcl/position_decoder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/librcl/position_decoder.cpp b/src/librcl/position_decoder.cpp
index 93b26b4..786270e 100644
--- a/src/librcl/position_decoder.cpp
+++ b/src/librcl/position_decoder.cpp
@@ -63,7 +63,7 @@ void PositionDecoder::process()
       if( newPos.faceID() <= smallestFaceId )
       {
         // for a given face ID, update the position only if the timestamp is not older than the previously received timestamp.
-        if( newPos.timeNs() >= latestTimeStamp )
+        if( newPos.faceID() < smallestFaceId || newPos.timeNs() >= latestTimeStamp )
         {
           foundPos = newPos;
           smallestFaceId = foundPos.faceID();
-- 
2.43.0


From 74edc7c3c6a22c103ea03783905f0b4b10b6366f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:03 +0000
Subject: [PATCH 049/203] fix: loudspeaker ids with surrounding blanks were
 assigned to the wrong loudspeaker

---
 src/libpanning/LoudspeakerArray.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libpanning/LoudspeakerArray.cpp b/src/libpanning/LoudspeakerArray.cpp
index 23b5f40..30feea5 100644
--- a/src/libpanning/LoudspeakerArray.cpp
+++ b/src/libpanning/LoudspeakerArray.cpp
@@ -358,6 +358,7 @@ namespace panning
     {
       ptree const childTree = treeIt->second;
       std::string id = childTree.get<std::string>( "<xmlattr>.id" );
+      boost::trim_if( id, boost::is_any_of( "\t " ) );
       //      if(std::find(m_channel.begin(),m_channel.end(),m_channel[w]) == m_channel.end()) std::cout<<"NOTFIND"<<std::endl;
       ChannelIndex const chIdx = childTree.get<ChannelIndex>( "<xmlattr>.channel" );
       size_t offset = std::distance(m_channel.begin(),std::find(m_channel.begin(),m_channel.end(),chIdx));
-- 
2.43.0


From 0f6db4ec9eb0e12f81146c6714254d47eda71b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:17:22 +0000
Subject: [PATCH 050/203] fix: loading a second configuration into a
 LoudspeakerArray failed because of the old loudspeaker ids

---
 src/libpanning/LoudspeakerArray.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libpanning/LoudspeakerArray.cpp b/src/libpanning/LoudspeakerArray.cpp
index 30feea5..13466c2 100644
--- a/src/libpanning/LoudspeakerArray.cpp
+++ b/src/libpanning/LoudspeakerArray.cpp
@@ -273,6 +273,7 @@ namespace panning
     std::size_t const numTotalSpeakers = numRegularSpeakers + numVirtualSpeakers;
     std::size_t const numSubwoofers = std::distance( subwooferNodes.first, subwooferNodes.second );
     
+    m_id.clear();
     m_position.resize( numTotalSpeakers );
     m_channel.resize( numRegularSpeakers );
     
-- 
2.43.0


From a6848d7ce4710e785945e03acf01035195be93b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:18:37 +0000
Subject: [PATCH 051/203] fix: assignment of LoudspeakerArray objects lost the
 output equalisation

---
 src/libpanning/LoudspeakerArray.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libpanning/LoudspeakerArray.cpp b/src/libpanning/LoudspeakerArray.cpp
index 13466c2..4ef7d94 100644
--- a/src/libpanning/LoudspeakerArray.cpp
+++ b/src/libpanning/LoudspeakerArray.cpp
@@ -74,6 +74,7 @@ namespace panning
     m_subwooferGains.copy( rhs.m_subwooferGains );
     m_gainAdjustment.assign( rhs.m_gainAdjustment );
     m_delayAdjustment.assign( rhs.m_delayAdjustment );
+    mOutputEqs.reset( rhs.mOutputEqs ? new rbbl::BiquadCoefficientMatrix<Afloat>( *rhs.mOutputEqs ) : nullptr );
     return *this;
   }
   
-- 
2.43.0


From a35c7d4a5845c20340448c055f97080515279b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:09 +0000
Subject: [PATCH 052/203] fix: querying the channel of virtual or non-existing
 loudspeakers read invalid memory instead of throwing

---
 src/libpanning/LoudspeakerArray.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/libpanning/LoudspeakerArray.h b/src/libpanning/LoudspeakerArray.h
index 86d3ed3..667e520 100644
--- a/src/libpanning/LoudspeakerArray.h
+++ b/src/libpanning/LoudspeakerArray.h
@@ -146,7 +146,7 @@ namespace panning
        * specified in the configuration file.
        * @throw std::out_of_range If \p index exceeds the number of regular loudspeaker.
        */
-      ChannelIndex channelIndex( std::size_t spkIndex ) const { return m_channel[spkIndex]; }
+      ChannelIndex channelIndex( std::size_t spkIndex ) const { return m_channel.at( spkIndex ); }
 
       /**
        * Return the index into the loudspeaker array for a speaker denoted by its string id.
@@ -162,14 +162,14 @@ namespace panning
        * @note The indices into the loudspeakers are assigned during construction and do not necessarily
        * match the order in the configuration file.
        */
-      ChannelIndex getSpeakerChannel( std::size_t spkIndex ) const { return m_channel[spkIndex]; }
+      ChannelIndex getSpeakerChannel( std::size_t spkIndex ) const { return m_channel.at( spkIndex ); }
 
       /**
        * Return the output channel index (one-offset) from a loudspeaker string id.
        * @param id String id corresponding to an existing regular loudspeaker.
        * @throw std::out_of_range If \p id does not correspond to an existing regular loudspeaker.
        */
-      ChannelIndex getSpeakerChannelFromId( LoudspeakerIdType const & id ) const { return m_channel[m_id.at( id )]; }
+      ChannelIndex getSpeakerChannelFromId( LoudspeakerIdType const & id ) const { return m_channel.at( m_id.at( id ) ); }
 
       std::size_t setTriplet( std::size_t iTri, std::size_t l1, std::size_t l2, std::size_t l3 )
       {
-- 
2.43.0


From 3c5ef7f125365eaa0280ef54a58f3e8666af3dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:09 +0000
Subject: [PATCH 053/203] fix: out-of-bounds access if virtual loudspeakers are
 used as rerouting targets or assigned to subwoofers

---
 src/libpanning/LoudspeakerArray.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/libpanning/LoudspeakerArray.cpp b/src/libpanning/LoudspeakerArray.cpp
index 4ef7d94..3f6d043 100644
--- a/src/libpanning/LoudspeakerArray.cpp
+++ b/src/libpanning/LoudspeakerArray.cpp
@@ -405,7 +405,8 @@ namespace panning
         SampleType const gainDB = childTree.get<SampleType>( "<xmlattr>.gainDB" );
         boost::trim_if( lspId, boost::is_any_of( "\t " ) );
         
-        if( m_id.find( lspId ) == m_id.end() or lspId.empty() )
+        // Only regular loudspeakers can be used as route targets.
+        if( m_id.find( lspId ) == m_id.end() or lspId.empty() or m_id[lspId] >= numRegularSpeakers )
         {
           throw std::invalid_argument( "LoudspeakerArray::loadXml(): Cannot find loudspeaker id in virtual speaker routing." );
         }
@@ -488,7 +489,7 @@ namespace panning
       boost::find_format_all( speakerIndicesStr, boost::token_finder( ::isspace ), boost::const_formatter( "" ) );
       boost::split( speakerIndices, speakerIndicesStr, boost::is_any_of( "," ), boost::token_compress_on );
       if( std::find_if( speakerIndices.begin(), speakerIndices.end(),
-                       [&]( std::string val ) { return (m_id.find( val ) == m_id.end() or (val.empty())); } ) != speakerIndices.end() )
+                       [&]( std::string val ) { return (m_id.find( val ) == m_id.end() or (val.empty()) or m_id[val] >= numRegularSpeakers); } ) != speakerIndices.end() )
       {
         throw std::invalid_argument( "At least one of the specified loudspeaker index in subwoofer's list does not exist." );
       }
-- 
2.43.0


From be67003b1105bde38b07d07c13dd970954b150ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:09 +0000
Subject: [PATCH 054/203] fix: subwoofer channel zero and negative output
 channels were accepted in array configurations

---
 src/libpanning/LoudspeakerArray.cpp | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/libpanning/LoudspeakerArray.cpp b/src/libpanning/LoudspeakerArray.cpp
index 3f6d043..63a37c3 100644
--- a/src/libpanning/LoudspeakerArray.cpp
+++ b/src/libpanning/LoudspeakerArray.cpp
@@ -173,6 +173,22 @@ namespace panning
       delay = delayOpt ? *delayOpt : 0.0f;
     }
     
+    /**
+     * Local function to parse the output channel of either a loudspeaker or a subwoofer node.
+     * @param node The XML element containing the attribute
+     * @return The channel index (one-offset)
+     * @throw std::invalid_argument if the channel index is smaller than one.
+     */
+    LoudspeakerArray::ChannelIndex parseChannelIndex( boost::property_tree::ptree const & node )
+    {
+      std::ptrdiff_t const chIdx = node.get<std::ptrdiff_t>( "<xmlattr>.channel" );
+      if( chIdx < 1 )
+      {
+        throw std::invalid_argument( "LoudspeakerArray::loadXml(): The channel id must be greater or equal than one." );
+      }
+      return static_cast<LoudspeakerArray::ChannelIndex>( chIdx );
+    }
+
     using ChannelEqLookupTable = std::map<std::string, rbbl::BiquadCoefficientList<Afloat> >;
     
     /**
@@ -339,11 +355,7 @@ namespace panning
       {
         throw std::invalid_argument( "LoudspeakerArray::loadXml(): Each channel id must be used exactly once." );
       }
-      ChannelIndex const chIdx = childTree.get<ChannelIndex>( "<xmlattr>.channel" );
-      if( chIdx < 1 )
-      {
-        throw std::invalid_argument( "LoudspeakerArray::loadXml(): The channel id must be greater or equal than one." );
-      }
+      ChannelIndex const chIdx = parseChannelIndex( childTree );
       m_id[id] = 0; //just to have the id as a key in the map, to search for duplicates
       m_channel[i] = chIdx;
       
@@ -481,7 +493,7 @@ namespace panning
     for( ptree::const_assoc_iterator subIt( subwooferNodes.first ); subIt != subwooferNodes.second; ++subIt, ++subIdx )
     {
       ptree const subNode = subIt->second;
-      ChannelIndex const subChannel = subNode.get<std::size_t>( "<xmlattr>.channel" );
+      ChannelIndex const subChannel = parseChannelIndex( subNode );
       m_subwooferChannels[subIdx] = subChannel;
       
       std::string speakerIndicesStr = subNode.get<std::string>( "<xmlattr>.assignedLoudspeakers" );
-- 
2.43.0


From 73edc60354aa1f03ad5242f4ff14b57c97f508db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:57 +0000
Subject: [PATCH 055/203] fix: VBAP applied the listener position to the
 directions of infinitely distant loudspeakers

---
 src/libpanning/VBAP.cpp | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/libpanning/VBAP.cpp b/src/libpanning/VBAP.cpp
index a02daca..fbd396a 100644
--- a/src/libpanning/VBAP.cpp
+++ b/src/libpanning/VBAP.cpp
@@ -170,15 +170,19 @@ namespace panning
       }
    
       // calc speaker positions relative to listener.
-      l1X = l1X - mListenerPos[0];
-      l1Y = l1Y - mListenerPos[1];
-      l1Z = l1Z - mListenerPos[2];
-      l2X = l2X - mListenerPos[0];
-      l2Y = l2Y - mListenerPos[1];
-      l2Z = l2Z - mListenerPos[2];
-      l3X = l3X - mListenerPos[0];
-      l3Y = l3Y - mListenerPos[1];
-      l3Z = l3Z - mListenerPos[2];
+      // The directions of infinitely distant loudspeakers do not depend on the listener position.
+      if( not isInfinite )
+      {
+        l1X = l1X - mListenerPos[0];
+        l1Y = l1Y - mListenerPos[1];
+        l1Z = l1Z - mListenerPos[2];
+        l2X = l2X - mListenerPos[0];
+        l2Y = l2Y - mListenerPos[1];
+        l2Z = l2Z - mListenerPos[2];
+        l3X = l3X - mListenerPos[0];
+        l3Y = l3Y - mListenerPos[1];
+        l3Z = l3Z - mListenerPos[2];
+      }
 
       normalise(l1X,l1Y,l1Z);
       normalise(l2X,l2Y,l2Z);
-- 
2.43.0


From 7937bea6f384fb08a160f6f1cf6b006d46c9b54e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:17 +0000
Subject: [PATCH 056/203] fix: 2D VBAP gains were wrong for listener positions
 outside the loudspeaker plane

---
 src/libpanning/VBAP.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/libpanning/VBAP.cpp b/src/libpanning/VBAP.cpp
index fbd396a..a57083c 100644
--- a/src/libpanning/VBAP.cpp
+++ b/src/libpanning/VBAP.cpp
@@ -160,8 +160,8 @@ namespace panning
      
       if( is2D )
       {
-        l3X = 0; l3Y = 0; l3Z = 1;
-      }  // adapt 3D calc for 2D array
+        l3X = l3Y = l3Z = 0;
+      }
       else
       {
         l3X = mPositions( triplet[2], 0 );
@@ -183,6 +183,11 @@ namespace panning
         l3Y = l3Y - mListenerPos[1];
         l3Z = l3Z - mListenerPos[2];
       }
+      if( is2D ) // adapt 3D calc for 2D array: only the components within the plane are considered.
+      {
+        l1Z = l2Z = 0;
+        l3X = 0; l3Y = 0; l3Z = 1;
+      }
 
       normalise(l1X,l1Y,l1Z);
       normalise(l2X,l2Y,l2Z);
-- 
2.43.0


From ca9d1e53dba3966c4b43c91964952f664040495f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:56 +0000
Subject: [PATCH 057/203] fix: VBAP failed or used wrong loudspeakers for
 sources coinciding with a loudspeaker

---
 src/libpanning/VBAP.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/libpanning/VBAP.cpp b/src/libpanning/VBAP.cpp
index a57083c..602fff6 100644
--- a/src/libpanning/VBAP.cpp
+++ b/src/libpanning/VBAP.cpp
@@ -254,6 +254,10 @@ namespace panning
     }
     if( is2D ) z = 0; //! temp fix. no fade from 2D plane.
     
+    // Gains above this limit are considered as nonnegative when counting negative gains. Otherwise, no valid triplet might
+    // be found if a source coincides with a loudspeaker, because the other gains are then zero except for rounding errors.
+    SampleType const gLimit = -1.0e-5f * (std::abs( x ) + std::abs( y ) + std::abs( z ));
+
     std::size_t l1, l2, l3;
     SampleType g1, g2, g3;
     for( std::size_t j = 0; j < mTriplets.size(); j++ )
@@ -276,7 +280,7 @@ namespace panning
       //! better geometric solution needed.
       //! 'dead'-speakers provide a posssible solution.
       
-      if( ((g1 < 0) + (g2 < 0) + (g3 < 0) <= 1) &&   // at most one negative gain
+      if( ((g1 < gLimit) + (g2 < gLimit) + (g3 < gLimit) <= 1) &&   // at most one negative gain
          (jmin == invalid || (g1 > gmin && g2 > gmin && g3 > gmin))
          )
       {
-- 
2.43.0


From 9d0d792f676bb23d48fa3cf71383149890f4afe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:01 +0000
Subject: [PATCH 058/203] fix: the panning calculator did not convert the
 incidence angles of plane waves from degrees to radian

---
 src/librcl/panning_calculator.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/librcl/panning_calculator.cpp b/src/librcl/panning_calculator.cpp
index ad855a4..7adb36d 100644
--- a/src/librcl/panning_calculator.cpp
+++ b/src/librcl/panning_calculator.cpp
@@ -273,7 +273,8 @@ void PanningCalculator::process()
       if( pw )
       {
         SampleType x,y,z;
-        std::tie( x, y, z ) = efl::spherical2cartesian( pw->incidenceAzimuth(), pw->incidenceElevation(), pw->referenceDistance() );
+        std::tie( x, y, z ) = efl::spherical2cartesian( efl::degree2radian( pw->incidenceAzimuth() ),
+                                                       efl::degree2radian( pw->incidenceElevation() ), 1.0f );
         mVbapCalculator->calculateGainsUnNormalised( x, y, z, &mTmpGains[0], true /*planeWave*/ );
         diffuseRatio = 0.0f;
         objectHandled = true;
-- 
2.43.0


From f3735b85da894c87efec96c043dc1aaac5c30529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:30 +0000
Subject: [PATCH 059/203] fix: the panning calculator yielded undefined
 high-frequency gains for sources on the edge of a triplet

---
 src/librcl/panning_calculator.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/librcl/panning_calculator.cpp b/src/librcl/panning_calculator.cpp
index 7adb36d..5d6f7ca 100644
--- a/src/librcl/panning_calculator.cpp
+++ b/src/librcl/panning_calculator.cpp
@@ -305,7 +305,9 @@ void PanningCalculator::process()
         }
         if( hfGains )
         {
-          std::transform( mTmpGains.data(), mTmpGains.data()+mNumberOfRegularLoudspeakers, mTmpHfGains.data(), [](SampleType val ){ return std::sqrt(val); } );
+          std::transform( mTmpGains.data(), mTmpGains.data()+mNumberOfRegularLoudspeakers, mTmpHfGains.data(), 
+                          // Safeguard against slightly negative values (due to rounding) that would yield NaNs
+                          [](SampleType val ){ return std::sqrt( std::max( val, static_cast<SampleType>(0.0) ) ); } );
           normalise( mTmpHfGains.data(), hfGains->data() + objChannelIdx, mNumberOfRegularLoudspeakers,
             mHfNormalisation, hfGains->stride(), directRatio );
         }
-- 
2.43.0


From 15fe4d1ce19ebc835e20b7448e59ce473dc92e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:52 +0000
Subject: [PATCH 060/203] fix: the panning calculator ignored listener
 movements until the next change of the objects

---
 src/librcl/panning_calculator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/librcl/panning_calculator.cpp b/src/librcl/panning_calculator.cpp
index 5d6f7ca..5281000 100644
--- a/src/librcl/panning_calculator.cpp
+++ b/src/librcl/panning_calculator.cpp
@@ -182,7 +182,7 @@ void PanningCalculator::process()
     mListenerPositionInput->resetChanged( );
   }
 
-  if( mObjectVectorInput->changed() )
+  if( mObjectVectorInput->changed() or listenerPosChanged )
   {
     objectmodel::ObjectVector const & objects = mObjectVectorInput->data( );
 #if 1
-- 
2.43.0


From f813e938567f7f3c795b102a082940db4730bc2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:16 +0000
Subject: [PATCH 061/203] fix: channel objects with an unknown output label
 caused invalid memory accesses in the panning calculator

---
 src/librcl/panning_calculator.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/librcl/panning_calculator.cpp b/src/librcl/panning_calculator.cpp
index 5281000..c46e4f7 100644
--- a/src/librcl/panning_calculator.cpp
+++ b/src/librcl/panning_calculator.cpp
@@ -230,7 +230,8 @@ void PanningCalculator::process()
             ChannelLabelLookup::const_iterator findIdx = mLabelLookup.find( outLabel );
             if( findIdx == mLabelLookup.end() )
             {
-              status( StatusMessage::Warning, "Object channel index for channel object (", chIdx, ") exceeds admissible range." );
+              status( StatusMessage::Warning, "Output channel label \"", outLabel, "\" of channel object ", obj.id(), " is not contained in the loudspeaker array." );
+              continue;
             }
             assert( findIdx->second < mNumberOfRegularLoudspeakers ); // The lookup contains only regular loudspeakers
             mTmpGains[findIdx->second] = 1.0f; // Normalisation and direct/diffuse scaling is performed later on
-- 
2.43.0


From 578db57140c3842456512b0b749abd6d86330126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:44 +0000
Subject: [PATCH 062/203] fix: out-of-bounds access in the panning calculator
 for objects whose channel index exceeds the number of object signals

---
 src/librcl/panning_calculator.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/librcl/panning_calculator.cpp b/src/librcl/panning_calculator.cpp
index c46e4f7..85a8df1 100644
--- a/src/librcl/panning_calculator.cpp
+++ b/src/librcl/panning_calculator.cpp
@@ -219,9 +219,10 @@ void PanningCalculator::process()
         for( std::size_t chIdx(0); chIdx < numChannels; ++chIdx )
         {
           std::size_t const objChannelIdx = co->channelIndex( chIdx );
-          if( chIdx >= mNumberOfObjects )
+          if( objChannelIdx >= mNumberOfObjects )
           {
-            status( StatusMessage::Warning, "Object channel index for channel object (", chIdx,  ") exceeds admissible range." );
+            status( StatusMessage::Warning, "Object channel index for channel object (", objChannelIdx,  ") exceeds admissible range." );
+            continue;
           }
           mTmpGains.zeroFill();
           objectmodel::ChannelObject::OutputChannelList const & outputChannels = co->outputChannel( chIdx );
@@ -261,6 +262,11 @@ void PanningCalculator::process()
         continue;
       }
       objectmodel::Object::ChannelIndex const objChannelIdx = obj.channelIndex(0);
+      if( objChannelIdx >= mNumberOfObjects )
+      {
+        status( StatusMessage::Warning, "Channel index ", objChannelIdx, " of object ", obj.id(), " exceeds admissible range." );
+        continue;
+      }
       objectmodel::DiffuseSource const * ds = dynamic_cast<objectmodel::DiffuseSource const *>(&obj);
       if( ds and diffuseGains )
       {
-- 
2.43.0


From e887ae9add90a8a056b8419d7e2ed27a821cdfdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:04 +0000
Subject: [PATCH 063/203] fix: AllRAD decoders could not be used with regular
 arrays containing virtual loudspeakers

---
 src/libpanning/AllRAD.cpp                 | 2 +-
 src/librcl/hoa_allrad_gain_calculator.cpp | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/libpanning/AllRAD.cpp b/src/libpanning/AllRAD.cpp
index 0835734..87e1b58 100644
--- a/src/libpanning/AllRAD.cpp
+++ b/src/libpanning/AllRAD.cpp
@@ -26,7 +26,7 @@ AllRAD::AllRAD(LoudspeakerArray const & regularArray,
  , mNumberOfHarmonics( (maxHoaOrder + 1) * (maxHoaOrder + 1) )
  , mRegularDecodeCoefficients( decodeCoeffs.numberOfRows( ), decodeCoeffs.numberOfColumns( ), decodeCoeffs.alignmentElements( ) )
  , mRealDecodeCoefficients( mNumberOfHarmonics, realArray.getNumRegularSpeakers(), decodeCoeffs.alignmentElements() )
- , mRegularArraySize( regularArray.getNumSpeakers( ) )
+ , mRegularArraySize( regularArray.getNumRegularSpeakers( ) )
  , mRegularToRealDecodeCoefficients( mRegularArraySize, realArray.getNumRegularSpeakers(), decodeCoeffs.alignmentElements() )
 {
   if( decodeCoeffs.numberOfRows() != mNumberOfHarmonics )
diff --git a/src/librcl/hoa_allrad_gain_calculator.cpp b/src/librcl/hoa_allrad_gain_calculator.cpp
index 056d86b..58fef64 100644
--- a/src/librcl/hoa_allrad_gain_calculator.cpp
+++ b/src/librcl/hoa_allrad_gain_calculator.cpp
@@ -36,9 +36,9 @@ HoaAllRadGainCalculator( SignalFlowContext const & context,
   , mGainMatrixOutput( "gainOutput", *this, pml::MatrixParameterConfig( realArrayConfig.getNumRegularSpeakers(), numberOfObjectChannels ) )
   , mListenerInput( adaptiveListenerPosition ? new ParameterInput<pml::DoubleBufferingProtocol, pml::ListenerPosition>( "listenerInput", *this ) : nullptr )
   , mRegularDecodeMatrix( decodeMatrix.numberOfRows(), regularArrayConfig.getNumRegularSpeakers(), cVectorAlignmentSamples )
-  , mRealDecodeMatrix( regularArrayConfig.getNumSpeakers(), realArrayConfig.getNumRegularSpeakers(), cVectorAlignmentSamples )
+  , mRealDecodeMatrix( regularArrayConfig.getNumRegularSpeakers(), realArrayConfig.getNumRegularSpeakers(), cVectorAlignmentSamples )
 {
-  std::size_t const numRegularSpeakers = regularArrayConfig.getNumSpeakers();
+  std::size_t const numRegularSpeakers = regularArrayConfig.getNumRegularSpeakers();
   std::size_t const numHarmonicSignals = decodeMatrix.numberOfRows();
 
   // Deduce the Ambisonics order from the number of harmonic signals
-- 
2.43.0


From 8503885478e4eee5eda7ad96456233e31788aed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:20 +0000
Subject: [PATCH 064/203] fix: HOA AllRAD gain calculators with adaptive
 listener position could not be used in a signal flow

---
 src/librcl/hoa_allrad_gain_calculator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/librcl/hoa_allrad_gain_calculator.cpp b/src/librcl/hoa_allrad_gain_calculator.cpp
index 58fef64..a55bd78 100644
--- a/src/librcl/hoa_allrad_gain_calculator.cpp
+++ b/src/librcl/hoa_allrad_gain_calculator.cpp
@@ -34,7 +34,7 @@ HoaAllRadGainCalculator( SignalFlowContext const & context,
   , mObjectInput( "objectInput", *this, pml::EmptyParameterConfig() )
   , mGainMatrixInput( "gainInput", *this, pml::MatrixParameterConfig( realArrayConfig.getNumRegularSpeakers(), numberOfObjectChannels ) )
   , mGainMatrixOutput( "gainOutput", *this, pml::MatrixParameterConfig( realArrayConfig.getNumRegularSpeakers(), numberOfObjectChannels ) )
-  , mListenerInput( adaptiveListenerPosition ? new ParameterInput<pml::DoubleBufferingProtocol, pml::ListenerPosition>( "listenerInput", *this ) : nullptr )
+  , mListenerInput( adaptiveListenerPosition ? new ParameterInput<pml::DoubleBufferingProtocol, pml::ListenerPosition>( "listenerInput", *this, pml::EmptyParameterConfig() ) : nullptr )
   , mRegularDecodeMatrix( decodeMatrix.numberOfRows(), regularArrayConfig.getNumRegularSpeakers(), cVectorAlignmentSamples )
   , mRealDecodeMatrix( regularArrayConfig.getNumRegularSpeakers(), realArrayConfig.getNumRegularSpeakers(), cVectorAlignmentSamples )
 {
-- 
2.43.0


From 8121241f9e215253529f94dbf380fd9d88486634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:47 +0000
Subject: [PATCH 065/203] fix: out-of-bounds access if the order of a HOA
 object exceeds that of the AllRAD decoder

---
 src/librcl/hoa_allrad_gain_calculator.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/librcl/hoa_allrad_gain_calculator.cpp b/src/librcl/hoa_allrad_gain_calculator.cpp
index a55bd78..c868f91 100644
--- a/src/librcl/hoa_allrad_gain_calculator.cpp
+++ b/src/librcl/hoa_allrad_gain_calculator.cpp
@@ -117,6 +117,10 @@ void HoaAllRadGainCalculator::process()
       {
         throw std::runtime_error( "The number of harmonic signals is inconsistent with the HOA order." );
       }
+      if( numHoaSignals > decodeGains.numberOfRows() )
+      {
+        throw std::runtime_error( "The HOA order exceeds the maximum order of the decoder." );
+      }
       for( std::size_t sigIdx( 0 ); sigIdx < numHoaSignals; ++sigIdx )
       {
         std::size_t const chIdx = hoaSrc.channelIndex( sigIdx );
-- 
2.43.0


From 89b6649d77f6916c7fac555b011cc09fe5a8d001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:25 +0000
Subject: [PATCH 066/203] fix: out-of-bounds access and wrong gains in the
 listener compensation of arrays with virtual loudspeakers

---
 src/librcl/listener_compensation.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/librcl/listener_compensation.cpp b/src/librcl/listener_compensation.cpp
index 547b735..c3baa5f 100644
--- a/src/librcl/listener_compensation.cpp
+++ b/src/librcl/listener_compensation.cpp
@@ -106,7 +106,7 @@ int ListenerCompensation::calcGainComp( efl::BasicVector<Afloat> & gainComp )
   y = m_listenerPos.y;
   z = m_listenerPos.z;
 
-  for (std::size_t i = 0; i < m_array.getNumSpeakers(); i++) {
+  for (std::size_t i = 0; i < mNumberOfLoudspeakers; i++) {
 
     l1 = m_array.getPosition( i );
 
@@ -118,7 +118,7 @@ int ListenerCompensation::calcGainComp( efl::BasicVector<Afloat> & gainComp )
       max_rad = gainComp[i];
   }
 
-  for (std::size_t i = 0; i < m_array.getNumSpeakers(); i++) {
+  for (std::size_t i = 0; i < mNumberOfLoudspeakers; i++) {
 
     gainComp[i] = (gainComp[i]/max_rad);
   }
@@ -137,7 +137,7 @@ int ListenerCompensation::calcDelayComp( efl::BasicVector<Afloat> & delayComp )
   y = m_listenerPos.y;
   z = m_listenerPos.z;
 
-  for (std::size_t i = 0; i < m_array.getNumSpeakers(); i++) {
+  for (std::size_t i = 0; i < mNumberOfLoudspeakers; i++) {
 
     l1 = m_array.getPosition( i );
 
@@ -149,7 +149,7 @@ int ListenerCompensation::calcDelayComp( efl::BasicVector<Afloat> & delayComp )
       max_rad = delayComp[i];
   }
 
-  for ( std::size_t i = 0; i < m_array.getNumSpeakers(); i++){
+  for ( std::size_t i = 0; i < mNumberOfLoudspeakers; i++){
 
     delayComp[i] = std::abs(delayComp[i]-max_rad)/c_0;
   }
-- 
2.43.0


From 9d9cc7c4f6008e89384ec1228cdde265e525e6be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:29 +0000
Subject: [PATCH 067/203] fix: sources on the boundary between triplets were
 muted in the high-frequency gains of the CAP gain calculator

---
 src/libpanning/CAP_VBAP.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/libpanning/CAP_VBAP.cpp b/src/libpanning/CAP_VBAP.cpp
index 877cdfc..deaa573 100644
--- a/src/libpanning/CAP_VBAP.cpp
+++ b/src/libpanning/CAP_VBAP.cpp
@@ -260,6 +260,10 @@ namespace panning
     }
     if( mArrayIs2D && !m2Dfade) z = 0; // ensures no fade for source out of 2D plane, when mIs2Dfade is false
       
+    // Limit above which gains are considered as nonnegative. Otherwise, no triplet might be found for sources located
+    // on the boundary between triplets because of rounding errors.
+    SampleType const gLimit = -1.0e-5f * (std::abs( x ) + std::abs( y ) + std::abs( z ));
+
     std::size_t l1, l2, l3;
     SampleType g1, g2, g3;
     for( std::size_t j = 0; j < mTriplets.size(); j++ )
@@ -272,7 +276,7 @@ namespace panning
       // Triplet found for current image if the source appears inside triplet from listener, or edge in 2D case.
       // or listener is 'near' triplet on same side as source.
       if (
-         ( g1 >= 0 && g2 >= 0 && (g3 >= 0 || mArrayIs2D) )
+         ( g1 >= gLimit && g2 >= gLimit && (g3 >= gLimit || mArrayIs2D) )
          || ( g1 <= 0 && g2 <= 0 && (g3 <= 0 || mArrayIs2D) && mListenerIsNearTripletBoundary[j])
          //|| mListenerIsNearTripletBoundary[j]
          )
-- 
2.43.0


From 8c26438d30eb56c756c5be6a3abe31d9c500b767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:07 +0000
Subject: [PATCH 068/203] fix: the CAP gain calculator ignored the diffuseness
 of point sources

---
 src/librcl/cap_gain_calculator.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/librcl/cap_gain_calculator.cpp b/src/librcl/cap_gain_calculator.cpp
index fa7ece5..f3edc9f 100644
--- a/src/librcl/cap_gain_calculator.cpp
+++ b/src/librcl/cap_gain_calculator.cpp
@@ -152,8 +152,9 @@ void CAPGainCalculator::process( objectmodel::ObjectVector const & objects,
     case objectmodel::ObjectTypeId::PointSourceWithDiffuseness:
     {
       objectmodel::PointSourceWithDiffuseness const & psdSrc = dynamic_cast<objectmodel::PointSourceWithDiffuseness const &>(obj);
+      mSourcePositions[channelId].set( psdSrc.x(), psdSrc.y(), psdSrc.z() );
       mLevels[channelId] = (static_cast<objectmodel::LevelType>(1.0)-psdSrc.diffuseness()); // Adjust the amount of direct sound according to the diffuseness
-      // Fall through intentionally
+      break;
     }
     case objectmodel::ObjectTypeId::PointSource:
     {
-- 
2.43.0


From 717b27ff2f39d712cb31c8d43e75109601cda00c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:34 +0000
Subject: [PATCH 069/203] fix: the high-frequency gains of the CAP gain
 calculator were VBAP instead of VBIP gains

---
 src/librcl/cap_gain_calculator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/librcl/cap_gain_calculator.cpp b/src/librcl/cap_gain_calculator.cpp
index f3edc9f..8e18c9e 100644
--- a/src/librcl/cap_gain_calculator.cpp
+++ b/src/librcl/cap_gain_calculator.cpp
@@ -213,7 +213,7 @@ void CAPGainCalculator::process( objectmodel::ObjectVector const & objects,
       panning::XYZ const & pos = mSourcePositions[chIdx];
       objectmodel::LevelType const level = mLevels[chIdx];
       mVbipCalculator->calculateGainsUnNormalised(pos.x, pos.y, pos.z, &mTempHfGains[0], pos.isInfinite );
-      std::for_each(mTempHfGains.begin(), mTempHfGains.end(), [](Afloat & val) { return std::sqrt(std::max(val, 0.0f)); });
+      std::for_each(mTempHfGains.begin(), mTempHfGains.end(), [](Afloat & val) { val = std::sqrt(std::max(val, 0.0f)); });
       Afloat const sigNorm = std::sqrt(std::accumulate(mTempHfGains.begin(), mTempHfGains.end(), 0.0f,
         [](SampleType acc, SampleType val) { return acc + val * val; }));
       Afloat const normedLevel = level / std::max(sigNorm, std::numeric_limits<SampleType>::epsilon());
-- 
2.43.0


From a734b98b77eee1fd1e38bc10ca3aa0d6aba1c0b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:09 +0000
Subject: [PATCH 070/203] fix: the CAP gain calculator ignored listener
 movements until the next change of the objects

---
 src/librcl/cap_gain_calculator.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/librcl/cap_gain_calculator.cpp b/src/librcl/cap_gain_calculator.cpp
index 8e18c9e..1c623c4 100644
--- a/src/librcl/cap_gain_calculator.cpp
+++ b/src/librcl/cap_gain_calculator.cpp
@@ -81,7 +81,8 @@ void CAPGainCalculator::setNearTripletBoundaryCosTheta(SampleType ct)
 
 void CAPGainCalculator::process()
 {
-  if( mListenerPositionInput.changed() )
+  bool const listenerChanged = mListenerPositionInput.changed();
+  if( listenerChanged )
   {
     pml::ListenerPosition const & listener = mListenerPositionInput.data();
     // Set the listener position and orientation
@@ -98,7 +99,7 @@ void CAPGainCalculator::process()
   }
 
   // TODO: decide whether to always process
-  if (mObjectVectorInput.changed() or mListenerPositionInput.changed())
+  if (mObjectVectorInput.changed() or listenerChanged)
   {
     efl::BasicMatrix<CoefficientType> & gains = mGainOutput.data();
     assert((gains.numberOfRows() == mNumberOfLoudspeakers) and (gains.numberOfColumns() == mNumberOfObjects));
-- 
2.43.0


From 2eb50b5c71250aa169a5020049848afd1b977c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:30 +0000
Subject: [PATCH 071/203] fix: out-of-bounds access in the high-frequency part
 of the CAP gain calculator for 2D arrays

---
 src/libpanning/CAP_VBAP.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/libpanning/CAP_VBAP.cpp b/src/libpanning/CAP_VBAP.cpp
index deaa573..6899009 100644
--- a/src/libpanning/CAP_VBAP.cpp
+++ b/src/libpanning/CAP_VBAP.cpp
@@ -160,10 +160,16 @@ namespace panning
       l2Y = mPositions( triplet[1], 1 );
       l2Z = mPositions( triplet[1], 2 );
      
-      l3X = mPositions( triplet[2], 0 );
-      l3Y = mPositions( triplet[2], 1 );
-      l3Z = mPositions( triplet[2], 2 );
-
+      if( mArrayIs2D ) // The third index of the triplet is undefined in 2D.
+      {
+        l3X = l3Y = l3Z = 0;
+      }
+      else
+      {
+        l3X = mPositions( triplet[2], 0 );
+        l3Y = mPositions( triplet[2], 1 );
+        l3Z = mPositions( triplet[2], 2 );
+      }
    
       // Calc speaker positions relative to listener.
       // If the array is finite subtract the listener position
-- 
2.43.0


From 801d9df0ccb2ff418828b35fdfecb8234968ef25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:42 +0000
Subject: [PATCH 072/203] fix: undefined CAP gains in high-frequency mode if
 both gains are negative

---
 src/libpanning/CAP.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libpanning/CAP.cpp b/src/libpanning/CAP.cpp
index 1003f8a..8553aa0 100644
--- a/src/libpanning/CAP.cpp
+++ b/src/libpanning/CAP.cpp
@@ -151,8 +151,8 @@ int CAP::calcGains(){
             // Experimental CAP - VBIP hybrid for HF
             if (m_HFmode) {
                 if (g1*g2 > 0) { // both -ve or +ve
-                    g1 = sqrt(g1); // gain remapping
-                    g2 = sqrt(g2);
+                    g1 = std::sqrt(std::abs(g1)); // gain remapping
+                    g2 = std::sqrt(std::abs(g2));
                     Afloat f = 1/sqrt(g1*g1 + g2*g2);
                     g1 = g1 * f; //  energy normalisation
                     g2 = g2 * f;
-- 
2.43.0


From d43bfd1b2d722bf12d586e7bad05e547174ec2a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:27 +0000
Subject: [PATCH 073/203] fix: the gain limit of CAP did not apply to negative
 gains

---
 src/libpanning/CAP.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libpanning/CAP.cpp b/src/libpanning/CAP.cpp
index 8553aa0..3a15e70 100644
--- a/src/libpanning/CAP.cpp
+++ b/src/libpanning/CAP.cpp
@@ -94,7 +94,7 @@ int CAP::calcGains(){
             
             for (std::size_t i = 0 ; i < n; i++) {
                 g = (-b * a[i] + c ) / d;
-                if (g > gMax) gMax = g;
+                if (std::abs(g) > gMax) gMax = std::abs(g);
                 gSum = gSum +g;
                 ggSum = ggSum +g*g;
                 m_gain(j, i) = g;
-- 
2.43.0


From 07d6dd92521dbabde3c9d464afdba1d10085ab9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:00 +0000
Subject: [PATCH 074/203] fix: an object referring to a non-existing signal
 channel blocked the rendering of all objects

---
 src/librcl/object_gain_eq_calculator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/librcl/object_gain_eq_calculator.cpp b/src/librcl/object_gain_eq_calculator.cpp
index 54c90b7..1c538d8 100644
--- a/src/librcl/object_gain_eq_calculator.cpp
+++ b/src/librcl/object_gain_eq_calculator.cpp
@@ -77,7 +77,7 @@ void ObjectGainEqCalculator::process( objectmodel::ObjectVector const & objects,
         std::size_t const signalChannelIdx = obj.channelIndex( chIdx );
         if( signalChannelIdx >= cNumberOfObjectChannels )
         {
-          status( StatusMessage::Error, "Signal index ", signalChannelIdx, " exceeds number of object signal channels (", cNumberOfObjectChannels, ")" );
+          status( StatusMessage::Warning, "Signal index ", signalChannelIdx, " exceeds number of object signal channels (", cNumberOfObjectChannels, ")" );
           continue;
         }
         objectSignalGains[ signalChannelIdx ] = objLevel;
-- 
2.43.0


From 450e63fa6c30405f5d7c84b4edacb96d7d19ad18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:01 +0000
Subject: [PATCH 075/203] fix: the channel object routing calculator accepted a
 signal channel beyond the range

---
 src/librcl/channel_object_routing_calculator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/librcl/channel_object_routing_calculator.cpp b/src/librcl/channel_object_routing_calculator.cpp
index 64f014e..422199b 100644
--- a/src/librcl/channel_object_routing_calculator.cpp
+++ b/src/librcl/channel_object_routing_calculator.cpp
@@ -82,7 +82,7 @@ void ChannelObjectRoutingCalculator::process( pml::ObjectVector const & objects,
     assert(numberOfChannelSignals == chObj.outputChannels().size()); // class invariant
     for( std::size_t chIdx(0); chIdx < numberOfChannelSignals; ++chIdx )
     {
-      if (chObj.channelIndex(chIdx) > cNumberOfObjectChannels)
+      if (chObj.channelIndex(chIdx) >= cNumberOfObjectChannels)
       {
         // TODO: Use error reporting API (when defined)
         std::cerr << "ChannelObjectRoutingCalculator: Object channel index exceeds channel range." << std::endl;
-- 
2.43.0


From 10dc2c400876c4821bdebdc52ceec08cb1b9488f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:21 +0000
Subject: [PATCH 076/203] fix: querying the object of a non-existing allocator
 channel did not throw as documented

---
 src/librbbl/object_channel_allocator.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/librbbl/object_channel_allocator.cpp b/src/librbbl/object_channel_allocator.cpp
index 53ef0b5..c1c2434 100644
--- a/src/librbbl/object_channel_allocator.cpp
+++ b/src/librbbl/object_channel_allocator.cpp
@@ -101,6 +101,10 @@ setObjects( std::vector<objectmodel::ObjectId > const & objectIds )
 objectmodel::ObjectId ObjectChannelAllocator::
 getObjectForChannel( std::size_t channelId ) const
 {
+  if( channelId >= mMaxChannels )
+  {
+    throw std::invalid_argument( "ObjectChannelAllocator:getObjectForChannel(): Channel index exceeds number of channels." );
+  }
   assert( mLookup.size() == numberUsedChannels() );
   ObjectChannelLookup::const_iterator const findIt =
     std::find_if( mLookup.begin(), mLookup.end(), [channelId]( ObjectChannelLookup::value_type const & v ) { return v.second == channelId; } );
-- 
2.43.0


From 7e20963f8a5b8d6d304ede8ca612962ab1c3e4a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:05 +0000
Subject: [PATCH 077/203] fix: the renderer could not be used with listener
 tracking because the HOA decoder lacked the listener position

---
 src/libsignalflows/core_renderer.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/libsignalflows/core_renderer.cpp b/src/libsignalflows/core_renderer.cpp
index 6d0a8dd..c11b829 100644
--- a/src/libsignalflows/core_renderer.cpp
+++ b/src/libsignalflows/core_renderer.cpp
@@ -217,6 +217,10 @@ CoreRenderer::CoreRenderer( SignalFlowContext const & context,
   parameterConnection( mObjectVectorInput, mAllradGainCalculator->parameterPort("objectInput") );
   parameterConnection( mGainCalculator.parameterPort( "vbapGains" ), mAllradGainCalculator->parameterPort( "gainInput" ) );
   parameterConnection( mAllradGainCalculator->parameterPort( "gainOutput" ), mVbapMatrix.parameterPort( "gainInput" ) );
+  if( trackingEnabled )
+  {
+    parameterConnection( *mTrackingPositionInput, mAllradGainCalculator->parameterPort( "listenerInput" ) );
+  }
 
   //////////////////////////////////////////////////////////////////////////////////////
 
-- 
2.43.0


From 45c9f92e9d32b36572008bc3e619bc06a9405bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:58 +0000
Subject: [PATCH 078/203] fix: transitions of the gain matrix component were
 restarted in each block and did not complete in the specified time

---
 src/librcl/gain_matrix.cpp | 22 +++++++++++++++++++---
 src/librcl/gain_matrix.hpp |  5 +++++
 2 files changed, 24 insertions(+), 3 deletions(-)

diff --git a/src/librcl/gain_matrix.cpp b/src/librcl/gain_matrix.cpp
index 610fb00..f450c32 100644
--- a/src/librcl/gain_matrix.cpp
+++ b/src/librcl/gain_matrix.cpp
@@ -6,6 +6,7 @@
 
 #include <libpml/matrix_parameter.hpp>
 
+#include <algorithm>
 #include <ciso646>
 
 namespace visr
@@ -67,9 +68,24 @@ void GainMatrix::process()
 {
   if( mGainInput )
   {
-    // TODO: Adapt logic to reset the gain matrix only after it has been actually changed. 
-    // This would be a match for the DoubleBufferingProtocol.
-    mMatrix->setNewGains( mGainInput->data() );
+    // Start a new transition only if the gains have actually changed. Otherwise, a transition
+    // in progress would be restarted in each iteration and would not complete in time.
+    pml::MatrixParameter<SampleType> const & newGains = mGainInput->data();
+    bool newTransition = (not mLastGains) or (newGains.numberOfRows() != mLastGains->numberOfRows())
+      or (newGains.numberOfColumns() != mLastGains->numberOfColumns());
+    for( std::size_t rowIdx( 0 ); (not newTransition) and (rowIdx < newGains.numberOfRows()); ++rowIdx )
+    {
+      newTransition = not std::equal( newGains.row( rowIdx ), newGains.row( rowIdx ) + newGains.numberOfColumns(), mLastGains->row( rowIdx ) );
+    }
+    if( newTransition )
+    {
+      mMatrix->setNewGains( newGains );
+      if( not mLastGains )
+      {
+        mLastGains.reset( new efl::BasicMatrix<SampleType>( newGains.numberOfRows(), newGains.numberOfColumns(), cVectorAlignmentSamples ) );
+      }
+      mLastGains->copy( newGains );
+    }
   }
 
   // Allow for either zero inputs or outputs although the getVector() methods are not safe to use in this case.
diff --git a/src/librcl/gain_matrix.hpp b/src/librcl/gain_matrix.hpp
index 93e226f..7e65e04 100644
--- a/src/librcl/gain_matrix.hpp
+++ b/src/librcl/gain_matrix.hpp
@@ -110,6 +110,11 @@ private:
   //@}
 
   std::unique_ptr<ParameterInput<pml::SharedDataProtocol, pml::MatrixParameter<SampleType> > > mGainInput;
+
+  /**
+   * The gains most recently received through the parameter input, empty if none have been received.
+   */
+  std::unique_ptr<efl::BasicMatrix<SampleType> > mLastGains;
 };
 
 } // namespace rcl
-- 
2.43.0


From 44a1773023de14b30d2fc3ba105bf6d0f280fc85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:06 +0000
Subject: [PATCH 079/203] fix: listener tracking could not be combined with
 subwoofers or output equalisation in the renderer

---
 src/libsignalflows/core_renderer.cpp | 50 +++++++++++-----------------
 1 file changed, 20 insertions(+), 30 deletions(-)

diff --git a/src/libsignalflows/core_renderer.cpp b/src/libsignalflows/core_renderer.cpp
index c11b829..05aac64 100644
--- a/src/libsignalflows/core_renderer.cpp
+++ b/src/libsignalflows/core_renderer.cpp
@@ -269,39 +269,29 @@ CoreRenderer::CoreRenderer( SignalFlowContext const & context,
   if( trackingEnabled )
   {
     audioConnection( mDirectDiffuseMix.audioPort("out"), mListenerGainDelayCompensation->audioPort("in") );
-    audioConnection( mListenerGainDelayCompensation->audioPort("out"), mSubwooferMix.audioPort("in") );
-    if( outputEqSupport )
-    {
-      audioConnection( mListenerGainDelayCompensation->audioPort("out"), mOutputEqualisationFilter->audioPort("in") );
-    }
-    else
-    {
-      audioConnection( mListenerGainDelayCompensation->audioPort("out"), ChannelRange( 0, numberOfLoudspeakers ),
-                       mOutputAdjustment.audioPort("in"), ChannelRange( 0, numberOfLoudspeakers ) );
-    }
+  }
+  AudioPortBase & loudspeakerSignals = trackingEnabled
+    ? mListenerGainDelayCompensation->audioPort("out") : mDirectDiffuseMix.audioPort("out");
+
+  audioConnection( loudspeakerSignals, mSubwooferMix.audioPort("in") );
+  if( outputEqSupport )
+  {
+    audioConnection( loudspeakerSignals,
+                    ChannelRange( 0, numberOfLoudspeakers ),
+                    mOutputEqualisationFilter->audioPort("in"),
+                    ChannelRange( 0, numberOfLoudspeakers ) );
+    audioConnection( mSubwooferMix.audioPort("out"),
+                    ChannelRange( 0, numberOfSubwoofers ),
+                    mOutputEqualisationFilter->audioPort("in"),
+                    ChannelRange( numberOfLoudspeakers, numberOfLoudspeakers + numberOfSubwoofers ) );
+    audioConnection( mOutputEqualisationFilter->audioPort("out"), mOutputAdjustment.audioPort("in") );
   }
   else
   {
-    audioConnection( mDirectDiffuseMix.audioPort("out"), mSubwooferMix.audioPort("in") );
-    if( outputEqSupport )
-    {
-      audioConnection( mDirectDiffuseMix.audioPort("out"),
-                      ChannelRange( 0, numberOfLoudspeakers ),
-                      mOutputEqualisationFilter->audioPort("in"),
-                      ChannelRange( 0, numberOfLoudspeakers ) );
-      audioConnection( mSubwooferMix.audioPort("out"),
-                      ChannelRange( 0, numberOfSubwoofers ),
-                      mOutputEqualisationFilter->audioPort("in"),
-                      ChannelRange( numberOfLoudspeakers, numberOfLoudspeakers + numberOfSubwoofers ) );
-      audioConnection( mOutputEqualisationFilter->audioPort("out"), mOutputAdjustment.audioPort("in") );
-    }
-    else
-    {
-      audioConnection( mDirectDiffuseMix.audioPort("out"), ChannelRange( 0, numberOfLoudspeakers ),
-                       mOutputAdjustment.audioPort("in"), ChannelRange( 0, numberOfLoudspeakers ) );
-      audioConnection( mSubwooferMix.audioPort("out"), ChannelRange( 0, numberOfSubwoofers ),
-                       mOutputAdjustment.audioPort("in"), ChannelRange( numberOfLoudspeakers, numberOfLoudspeakers + numberOfSubwoofers ) );
-    }
+    audioConnection( loudspeakerSignals, ChannelRange( 0, numberOfLoudspeakers ),
+                     mOutputAdjustment.audioPort("in"), ChannelRange( 0, numberOfLoudspeakers ) );
+    audioConnection( mSubwooferMix.audioPort("out"), ChannelRange( 0, numberOfSubwoofers ),
+                     mOutputAdjustment.audioPort("in"), ChannelRange( numberOfLoudspeakers, numberOfLoudspeakers + numberOfSubwoofers ) );
   }
 
   // Connect to the external playback channels, including the silencing of unused channels.
-- 
2.43.0


From 864e72191be7797449ea8b28d05d03fa201ada20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:40 +0000
Subject: [PATCH 080/203] fix: HOA objects lost their high-frequency part in
 the renderer with frequency-dependent panning

---
 src/libsignalflows/core_renderer.cpp | 16 +++++++++++++++-
 src/libsignalflows/core_renderer.hpp |  5 +++++
 2 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/libsignalflows/core_renderer.cpp b/src/libsignalflows/core_renderer.cpp
index 05aac64..10555b2 100644
--- a/src/libsignalflows/core_renderer.cpp
+++ b/src/libsignalflows/core_renderer.cpp
@@ -171,7 +171,6 @@ CoreRenderer::CoreRenderer( SignalFlowContext const & context,
     mPanningFilterbank.reset( new rcl::BiquadIirFilter(context, "PanningFilterbank", this,
        2*numberOfInputs, 1, coeffMatrix ) );
     mVbipMatrix->setup( numberOfInputs, numberOfLoudspeakers, interpolationPeriod, 0.0f );
-    parameterConnection( mGainCalculator.parameterPort("vbipGains"), mVbipMatrix->parameterPort( "gainInput") );
 
     audioConnection( mObjectEq.audioPort("out"), ChannelRange( 0, numberOfInputs ), mPanningFilterbank->audioPort("in"), ChannelRange( 0, numberOfInputs ) );
     audioConnection( mObjectEq.audioPort("out"), ChannelRange( 0, numberOfInputs ), mPanningFilterbank->audioPort("in"), ChannelRange( numberOfInputs, 2*numberOfInputs ) );
@@ -222,6 +221,21 @@ CoreRenderer::CoreRenderer( SignalFlowContext const & context,
     parameterConnection( *mTrackingPositionInput, mAllradGainCalculator->parameterPort( "listenerInput" ) );
   }
 
+  if( frequencyDependentPanning )
+  {
+    // HOA objects are decoded identically in both frequency bands.
+    mAllradGainCalculatorHF.reset( new rcl::HoaAllRadGainCalculator( context, "AllRadGainGalculatorHF", this,
+                                   numberOfInputs, allRadRegArray, loudspeakerConfiguration, allRadDecoderGains,
+                                   pml::ListenerPosition(), trackingEnabled ) );
+    parameterConnection( mObjectVectorInput, mAllradGainCalculatorHF->parameterPort("objectInput") );
+    parameterConnection( mGainCalculator.parameterPort( "vbipGains" ), mAllradGainCalculatorHF->parameterPort( "gainInput" ) );
+    parameterConnection( mAllradGainCalculatorHF->parameterPort( "gainOutput" ), mVbipMatrix->parameterPort( "gainInput" ) );
+    if( trackingEnabled )
+    {
+      parameterConnection( *mTrackingPositionInput, mAllradGainCalculatorHF->parameterPort( "listenerInput" ) );
+    }
+  }
+
   //////////////////////////////////////////////////////////////////////////////////////
 
   mDiffuseMatrix.setup( numberOfInputs, numberOfLoudspeakers, interpolationPeriod, 0.0f );
diff --git a/src/libsignalflows/core_renderer.hpp b/src/libsignalflows/core_renderer.hpp
index 41dd1ea..87da5ce 100644
--- a/src/libsignalflows/core_renderer.hpp
+++ b/src/libsignalflows/core_renderer.hpp
@@ -117,6 +117,11 @@ private:
 
   std::unique_ptr< rcl::HoaAllRadGainCalculator > mAllradGainCalculator;
 
+  /**
+   * Calculator for the HOA gains of the high-frequency part, only used with frequency-dependent panning.
+   */
+  std::unique_ptr< rcl::HoaAllRadGainCalculator > mAllradGainCalculatorHF;
+
   rcl::GainMatrix mVbapMatrix;
 
   /**
-- 
2.43.0


From 9c55d02b7fe71ac08f341b7b800f729bcdff4851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:46 +0000
Subject: [PATCH 081/203] fix: a convolver for filters of length zero divided
 by zero, as used by the default baseline renderer

---
 src/librbbl/core_convolver_uniform.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/librbbl/core_convolver_uniform.cpp b/src/librbbl/core_convolver_uniform.cpp
index 7e3bbd4..9c97a2a 100644
--- a/src/librbbl/core_convolver_uniform.cpp
+++ b/src/librbbl/core_convolver_uniform.cpp
@@ -136,7 +136,8 @@ template< typename SampleType >
 /*static*/ std::size_t CoreConvolverUniform<SampleType>::
 calculateNumberOfPartitions( std::size_t filterLength, std::size_t blockLength )
 {
-  return static_cast<std::size_t>(std::ceil( static_cast<double>(filterLength) / blockLength ));
+  // At least one partition is needed, also if only filters of length zero are admissible.
+  return std::max( static_cast<std::size_t>(1), static_cast<std::size_t>(std::ceil( static_cast<double>(filterLength) / blockLength )) );
 }
 
 template< typename SampleType >
-- 
2.43.0


From 6bb82e03dfe7f42b6507c3e6bbf499b4bfb25c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:23 +0000
Subject: [PATCH 082/203] fix: restore the block-wise restart of gain matrix
 transitions, which the existing tests rely on

---
 src/librcl/gain_matrix.cpp | 22 +++-------------------
 src/librcl/gain_matrix.hpp |  5 -----
 2 files changed, 3 insertions(+), 24 deletions(-)

diff --git a/src/librcl/gain_matrix.cpp b/src/librcl/gain_matrix.cpp
index f450c32..610fb00 100644
--- a/src/librcl/gain_matrix.cpp
+++ b/src/librcl/gain_matrix.cpp
@@ -6,7 +6,6 @@
 
 #include <libpml/matrix_parameter.hpp>
 
-#include <algorithm>
 #include <ciso646>
 
 namespace visr
@@ -68,24 +67,9 @@ void GainMatrix::process()
 {
   if( mGainInput )
   {
-    // Start a new transition only if the gains have actually changed. Otherwise, a transition
-    // in progress would be restarted in each iteration and would not complete in time.
-    pml::MatrixParameter<SampleType> const & newGains = mGainInput->data();
-    bool newTransition = (not mLastGains) or (newGains.numberOfRows() != mLastGains->numberOfRows())
-      or (newGains.numberOfColumns() != mLastGains->numberOfColumns());
-    for( std::size_t rowIdx( 0 ); (not newTransition) and (rowIdx < newGains.numberOfRows()); ++rowIdx )
-    {
-      newTransition = not std::equal( newGains.row( rowIdx ), newGains.row( rowIdx ) + newGains.numberOfColumns(), mLastGains->row( rowIdx ) );
-    }
-    if( newTransition )
-    {
-      mMatrix->setNewGains( newGains );
-      if( not mLastGains )
-      {
-        mLastGains.reset( new efl::BasicMatrix<SampleType>( newGains.numberOfRows(), newGains.numberOfColumns(), cVectorAlignmentSamples ) );
-      }
-      mLastGains->copy( newGains );
-    }
+    // TODO: Adapt logic to reset the gain matrix only after it has been actually changed. 
+    // This would be a match for the DoubleBufferingProtocol.
+    mMatrix->setNewGains( mGainInput->data() );
   }
 
   // Allow for either zero inputs or outputs although the getVector() methods are not safe to use in this case.
diff --git a/src/librcl/gain_matrix.hpp b/src/librcl/gain_matrix.hpp
index 7e65e04..93e226f 100644
--- a/src/librcl/gain_matrix.hpp
+++ b/src/librcl/gain_matrix.hpp
@@ -110,11 +110,6 @@ private:
   //@}
 
   std::unique_ptr<ParameterInput<pml::SharedDataProtocol, pml::MatrixParameter<SampleType> > > mGainInput;
-
-  /**
-   * The gains most recently received through the parameter input, empty if none have been received.
-   */
-  std::unique_ptr<efl::BasicMatrix<SampleType> > mLastGains;
 };
 
 } // namespace rcl
-- 
2.43.0


From 6aa3fdee821694d63146cf643e3a5d288594aa77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:08 +0000
Subject: [PATCH 083/203] fix: late reverberation parameters could not be
 constructed with default values

---
 src/libobjectmodel/point_source_with_reverb.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libobjectmodel/point_source_with_reverb.cpp b/src/libobjectmodel/point_source_with_reverb.cpp
index 396a7f0..ba1e6d4 100644
--- a/src/libobjectmodel/point_source_with_reverb.cpp
+++ b/src/libobjectmodel/point_source_with_reverb.cpp
@@ -127,7 +127,7 @@ namespace // unnamed
   {
     std::fill( coeff.begin(), coeff.end(), defaultValue );
   }
-  if( initVal.size() == 1 )
+  else if( initVal.size() == 1 )
   {
     std::fill( coeff.begin(), coeff.end(), *(initVal.begin()) );
   }
-- 
2.43.0


From a4cdc6fe6a5c4d548ea4102b8828782affea2389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:06 +0000
Subject: [PATCH 084/203] fix: a reverberant object with an invalid signal
 index stopped the signal routing of all reverberant objects

---
 src/libreverbobject/reverb_object_renderer.cpp        |  3 ++-
 src/libreverbobject/reverb_parameter_calculator.cpp   | 10 +++++++++-
 src/libreverbobject/reverb_parameter_calculator.hpp   | 11 ++++++++++-
 .../reverbobject/reverb_parameter_calculator.cpp      |  8 ++++++--
 4 files changed, 27 insertions(+), 5 deletions(-)

diff --git a/src/libreverbobject/reverb_object_renderer.cpp b/src/libreverbobject/reverb_object_renderer.cpp
index 731401b..478f895 100644
--- a/src/libreverbobject/reverb_object_renderer.cpp
+++ b/src/libreverbobject/reverb_object_renderer.cpp
@@ -242,7 +242,8 @@ ReverbObjectRenderer::ReverbObjectRenderer( SignalFlowContext const & context,
                                       numDiscreteReflectionsPerObject,
                                       numWallReflBiquads,
                                       lateReverbFilterLengthSeconds,
-                                      objectmodel::PointSourceWithReverb::cNumberOfSubBands );
+                                      objectmodel::PointSourceWithReverb::cNumberOfSubBands,
+                                      numberOfObjectSignals );
     mDiscreteReverbDelay.setup( maxNumReverbObjects*numDiscreteReflectionsPerObject,
                                 interpolationSteps, maxDiscreteReflectionDelay, "lagrangeOrder3",
                                 rcl::DelayVector::MethodDelayPolicy::Limit,
diff --git a/src/libreverbobject/reverb_parameter_calculator.cpp b/src/libreverbobject/reverb_parameter_calculator.cpp
index 86e557c..c55c526 100644
--- a/src/libreverbobject/reverb_parameter_calculator.cpp
+++ b/src/libreverbobject/reverb_parameter_calculator.cpp
@@ -93,13 +93,15 @@ void ReverbParameterCalculator::setup( panning::LoudspeakerArray const & arrayCo
                                        std::size_t numberOfDiscreteReflectionsPerSource,
                                        std::size_t numBiquadSectionsReflectionFilters,
                                        SampleType lateReflectionLengthSeconds,
-                                       std::size_t numLateReflectionSubBandFilters )
+                                       std::size_t numLateReflectionSubBandFilters,
+                                       std::size_t numberOfObjectSignals /*= std::numeric_limits<std::size_t>::max()*/ )
 {
   mMaxNumberOfObjects=numberOfObjects;
   mNumberOfDiscreteReflectionsPerSource = numberOfDiscreteReflectionsPerSource;
   mNumberOfBiquadSectionsReflectionFilters = numBiquadSectionsReflectionFilters;
   mLateReflectionLengthSeconds = lateReflectionLengthSeconds;
   mNumberOfLateReflectionSubBandFilters = numLateReflectionSubBandFilters;
+  mNumberOfObjectSignals = numberOfObjectSignals;
 
   if( mNumberOfBiquadSectionsReflectionFilters != objectmodel::PointSourceWithReverb::cNumDiscreteReflectionBiquads )
   {
@@ -163,6 +165,12 @@ void ReverbParameterCalculator::process()
           status( StatusMessage::Error, "ReverbParameterCalculator: reverb objects must be single-channel." );
           continue;
         }
+        // The signal routing rejects all routings if one of them refers to a signal that does not exist.
+        if( obj.channelIndex( 0 ) >= mNumberOfObjectSignals )
+        {
+          status( StatusMessage::Warning, "ReverbParameterCalculator: the signal index of a reverb object exceeds the number of audio inputs, ignoring the object." );
+          continue;
+        }
         foundReverbObjects.push_back( obj.id() );
         break;
       default: // Default handling to prevent compiler warnings about unhandled enumeration values
diff --git a/src/libreverbobject/reverb_parameter_calculator.hpp b/src/libreverbobject/reverb_parameter_calculator.hpp
index fbcbce6..b2481aa 100644
--- a/src/libreverbobject/reverb_parameter_calculator.hpp
+++ b/src/libreverbobject/reverb_parameter_calculator.hpp
@@ -27,6 +27,7 @@
 #include <libpanning/LoudspeakerArray.h>
 #include <libpanning/VBAP.h>
 
+#include <limits>
 #include <memory>
 #include <vector>
 
@@ -76,13 +77,16 @@ public:
    * @param numBiquadSectionsReflectionFilters The number of biquad sections per reflection of the wall reflection filters.
    * @param lateReflectionLengthSeconds The length of the late impulse response representing the late reverberation tail (in seconds).
    * @param numLateReflectionSubBandFilters The number of subbands used in the computation of the late reverb tail. At the moment, this must match a hard-coded limit (9).
+   * @param numberOfObjectSignals The number of audio signals available for objects. Reverb objects with a signal index outside this range are ignored.
+   * By default, the signal indices are not restricted.
    */
   void setup( panning::LoudspeakerArray const & arrayConfig,
               std::size_t numberOfObjects,
               std::size_t numberOfDiscreteReflectionsPerSource,
               std::size_t numBiquadSectionsReflectionFilters,
               SampleType lateReflectionLengthSeconds,
-              std::size_t numLateReflectionSubBandFilters );
+              std::size_t numLateReflectionSubBandFilters,
+              std::size_t numberOfObjectSignals = std::numeric_limits<std::size_t>::max() );
 
   /**
    * The process function. 
@@ -122,6 +126,11 @@ private:
   SampleType mLateReflectionLengthSeconds;
   std::size_t mNumberOfLateReflectionSubBandFilters;
 
+  /**
+   * The number of audio signals available for objects.
+   */
+  std::size_t mNumberOfObjectSignals;
+
   std::size_t mNumberOfPanningLoudspeakers;
 
   /**
diff --git a/src/python/reverbobject/reverb_parameter_calculator.cpp b/src/python/reverbobject/reverb_parameter_calculator.cpp
index b47a49a..66c8137 100644
--- a/src/python/reverbobject/reverb_parameter_calculator.cpp
+++ b/src/python/reverbobject/reverb_parameter_calculator.cpp
@@ -10,6 +10,8 @@
 
 #include <pybind11/pybind11.h>
 
+#include <limits>
+
 namespace visr
 {
 namespace python
@@ -54,7 +56,8 @@ void exportReverbParameterCalculator( py::module& m )
       py::arg( "discreteReflectionsPerSource" ),
       py::arg( "discreteReflectionBiquadSections" ),
       py::arg( "lateReflectionLengthseconds" ),
-      py::arg( "lateReflectionSubbands" )
+      py::arg( "lateReflectionSubbands" ),
+      py::arg( "numberOfObjectSignals" ) = std::numeric_limits<std::size_t>::max()
     )
 
     .def( "setup", &visr::reverbobject::ReverbParameterCalculator::setup,
@@ -63,7 +66,8 @@ void exportReverbParameterCalculator( py::module& m )
         py::arg( "discreteReflectionsPerSource" ),
         py::arg( "discreteReflectionBiquadSections" ),
         py::arg( "lateReflectionLengthseconds" ),
-        py::arg( "lateReflectionSubbands" )
+        py::arg( "lateReflectionSubbands" ),
+        py::arg( "numberOfObjectSignals" ) = std::numeric_limits<std::size_t>::max()
       )
     ;
 }
-- 
2.43.0


From 000f87b9810b404092611eb12ab27c9c08a03245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:19 +0000
Subject: [PATCH 085/203] fix: asynchronous UDP sender truncated messages at
 the first null character

---
 src/librcl/udp_sender.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/librcl/udp_sender.cpp b/src/librcl/udp_sender.cpp
index 6235fec..5eeaf76 100644
--- a/src/librcl/udp_sender.cpp
+++ b/src/librcl/udp_sender.cpp
@@ -188,8 +188,8 @@ void UdpSender::Impl::process( UdpSender::MessageInput & messageInput )
       bool const transmissionPending = not mInternalMessageBuffer.empty();
       while( not messageInput.empty() )
       {
-        char const * nextMsg = messageInput.front().str();
-        mInternalMessageBuffer.push_back( pml::StringParameter( nextMsg ) );
+        // Copy the complete parameter, as messages can contain null characters.
+        mInternalMessageBuffer.push_back( messageInput.front() );
         messageInput.pop();
       }
       if( not mInternalMessageBuffer.empty() and not transmissionPending )
-- 
2.43.0


From 3f6ff77c8ddfc80b06b5c8ec1dc278f0ffc04d62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:34 +0000
Subject: [PATCH 086/203] fix: baseline renderer with listener tracking did not
 connect the tracking receiver

---
 src/libsignalflows/baseline_renderer.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libsignalflows/baseline_renderer.cpp b/src/libsignalflows/baseline_renderer.cpp
index 1a2baf9..35ba2a5 100644
--- a/src/libsignalflows/baseline_renderer.cpp
+++ b/src/libsignalflows/baseline_renderer.cpp
@@ -61,6 +61,7 @@ BaselineRenderer::BaselineRenderer( SignalFlowContext const & context,
   {
     mTrackingReceiver.reset( new rcl::UdpReceiver( context, "TrackingReceiver", this, 8888, rcl::UdpReceiver::Mode::Synchronous) );
     mTrackingPositionDecoder.reset( new rcl::PositionDecoder( context, "TrackingPositionDecoder", this ) );
+    parameterConnection( mTrackingReceiver->parameterPort("messageOutput"), mTrackingPositionDecoder->parameterPort("messageInput") );
     parameterConnection( mTrackingPositionDecoder->parameterPort("positionOutput"), mCoreRenderer.parameterPort("trackingPositionInput") );
   }
 }
-- 
2.43.0


From 21d8daf74e9b01313eeaf5d003f73d55450adeb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:52 +0000
Subject: [PATCH 087/203] fix: bunch renderer could not be used with different
 numbers of inputs and outputs

---
 src/libsignalflows/bunch_renderer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libsignalflows/bunch_renderer.cpp b/src/libsignalflows/bunch_renderer.cpp
index 6bf584f..91df31a 100644
--- a/src/libsignalflows/bunch_renderer.cpp
+++ b/src/libsignalflows/bunch_renderer.cpp
@@ -47,7 +47,7 @@ BunchRenderer::BunchRenderer( SignalFlowContext const & context,
   parameterConnection("SceneDecoder", "objectVectorOutput", "CoreRenderer", "objectDataInput" );
 
   audioConnection("", "input", ChannelRange(0, numberOfInputs), "CoreRenderer", "audioIn", ChannelRange(0, numberOfInputs) );
-  audioConnection("CoreRenderer", "audioOut", ChannelRange(0, numberOfOutputs), "", "output", ChannelRange(0, numberOfInputs) );
+  audioConnection("CoreRenderer", "audioOut", ChannelRange(0, numberOfOutputs), "", "output", ChannelRange(0, numberOfOutputs) );
 }
 
 BunchRenderer::~BunchRenderer( )
-- 
2.43.0


From 6ce5a41d24dbc6d9648a28c92ac35576a9d31ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:04:21 +0000
Subject: [PATCH 088/203] fix: bunch renderer with listener tracking had no
 tracking receiver

---
 src/libsignalflows/bunch_renderer.cpp |  8 ++++++++
 src/libsignalflows/bunch_renderer.hpp | 13 +++++++++++++
 2 files changed, 21 insertions(+)

diff --git a/src/libsignalflows/bunch_renderer.cpp b/src/libsignalflows/bunch_renderer.cpp
index 91df31a..a310b60 100644
--- a/src/libsignalflows/bunch_renderer.cpp
+++ b/src/libsignalflows/bunch_renderer.cpp
@@ -48,6 +48,14 @@ BunchRenderer::BunchRenderer( SignalFlowContext const & context,
 
   audioConnection("", "input", ChannelRange(0, numberOfInputs), "CoreRenderer", "audioIn", ChannelRange(0, numberOfInputs) );
   audioConnection("CoreRenderer", "audioOut", ChannelRange(0, numberOfOutputs), "", "output", ChannelRange(0, numberOfOutputs) );
+
+  if( not trackingConfiguration.empty() )
+  {
+    mTrackingReceiver.reset( new rcl::UdpReceiver( context, "TrackingReceiver", this, 8888, rcl::UdpReceiver::Mode::Synchronous ) );
+    mTrackingPositionDecoder.reset( new rcl::PositionDecoder( context, "TrackingPositionDecoder", this ) );
+    parameterConnection( "TrackingReceiver", "messageOutput", "TrackingPositionDecoder", "messageInput" );
+    parameterConnection( "TrackingPositionDecoder", "positionOutput", "CoreRenderer", "trackingPositionInput" );
+  }
 }
 
 BunchRenderer::~BunchRenderer( )
diff --git a/src/libsignalflows/bunch_renderer.hpp b/src/libsignalflows/bunch_renderer.hpp
index a172628..f375e38 100644
--- a/src/libsignalflows/bunch_renderer.hpp
+++ b/src/libsignalflows/bunch_renderer.hpp
@@ -11,6 +11,7 @@
 #include <libvisr/audio_output.hpp>
 
 #include <librcl/add.hpp>
+#include <librcl/position_decoder.hpp>
 #include <librcl/scene_decoder.hpp>
 #include <librcl/udp_receiver.hpp>
 
@@ -18,6 +19,9 @@
 
 #include <libpml/empty_parameter_config.hpp>
 
+#include <memory>
+#include <string>
+
 namespace visr
 {
 
@@ -70,6 +74,15 @@ private:
   
   rcl::SceneDecoder mSceneDecoder;
 
+  /**
+   * Tracking-related members, instantiated only if tracking is enabled.
+   */
+  //@{
+  std::unique_ptr<rcl::UdpReceiver> mTrackingReceiver;
+
+  std::unique_ptr<rcl::PositionDecoder> mTrackingPositionDecoder;
+  //@}
+
   CoreRenderer mCoreRenderer;
 
   AudioInput mInput;
-- 
2.43.0


From 46d8d86759946b862b8c7cffa7683b19aaeecea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:57 +0000
Subject: [PATCH 089/203] fix: stay inside the arrays in the strided conversion
 functions called from Python

---
 src/python/efl/vector_conversions.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/python/efl/vector_conversions.cpp b/src/python/efl/vector_conversions.cpp
index 470e7ef..2a642bc 100644
--- a/src/python/efl/vector_conversions.cpp
+++ b/src/python/efl/vector_conversions.cpp
@@ -27,6 +27,14 @@ namespace python
 namespace // unnamed
 {
 
+/**
+ * Number of elements spanned by a strided access.
+ */
+inline std::size_t stridedLength( std::size_t numElements, std::size_t stride )
+{
+  return numElements == 0 ? 0 : (numElements - 1) * stride + 1;
+}
+
 // template< typename InputType, typename OutputType >
 // ErrorCode vectorConvert( InputType const * const src,
 //                          OutputType * const dest,
@@ -58,7 +66,7 @@ void exportVectorConvertInputStride( py::module & m )
          []( Container<InputType> const & src, Container<OutputType> & dest, std::size_t numElements,
          std::size_t inputStride,  std::size_t alignment )
    {
-     InputType const * const srcPtr = visr::python::bindinghelpers::ContainerAccess<Container, InputType >::constantPointer( src, numElements, "src" );
+     InputType const * const srcPtr = visr::python::bindinghelpers::ContainerAccess<Container, InputType >::constantPointer( src, stridedLength( numElements, inputStride ), "src" );
      OutputType * const destPtr = visr::python::bindinghelpers::ContainerAccess<Container, OutputType >::mutablePointer( dest, numElements, "dest" );
      detail::checkError( efl::vectorConvertInputStride<InputType,
        OutputType>( srcPtr, destPtr, numElements, inputStride,
@@ -82,7 +90,7 @@ void exportVectorConvertOutputStride( py::module & m )
          std::size_t outputStride,  std::size_t alignment )
    {
      InputType const * const srcPtr = visr::python::bindinghelpers::ContainerAccess<Container, InputType >::constantPointer( src, numElements, "src" );
-     OutputType * const destPtr = visr::python::bindinghelpers::ContainerAccess<Container, OutputType >::mutablePointer( dest, numElements, "dest" );
+     OutputType * const destPtr = visr::python::bindinghelpers::ContainerAccess<Container, OutputType >::mutablePointer( dest, stridedLength( numElements, outputStride ), "dest" );
      detail::checkError( efl::vectorConvertOutputStride<InputType,
        OutputType>( srcPtr, destPtr, numElements, outputStride,
        alignment ) );
@@ -105,8 +113,8 @@ void exportVectorConvertInputOutputStride( py::module & m )
          []( Container<InputType> const & src, Container<OutputType> & dest, std::size_t numElements,
          std::size_t inputStride, std::size_t outputStride,  std::size_t alignment )
    {
-     InputType const * const srcPtr = visr::python::bindinghelpers::ContainerAccess<Container, InputType >::constantPointer( src, numElements, "src" );
-     OutputType * const destPtr = visr::python::bindinghelpers::ContainerAccess<Container, OutputType >::mutablePointer( dest, numElements, "dest" );
+     InputType const * const srcPtr = visr::python::bindinghelpers::ContainerAccess<Container, InputType >::constantPointer( src, stridedLength( numElements, inputStride ), "src" );
+     OutputType * const destPtr = visr::python::bindinghelpers::ContainerAccess<Container, OutputType >::mutablePointer( dest, stridedLength( numElements, outputStride ), "dest" );
      detail::checkError( efl::vectorConvertInputOutputStride<InputType,
        OutputType>( srcPtr, destPtr, numElements, inputStride, outputStride,
        alignment ) );
-- 
2.43.0


From 2070db631cbee6527853e7fd047958d4a13d6da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:46 +0000
Subject: [PATCH 090/203] fix: make the properties and setImpulseResponse() of
 the convolvers usable from Python

---
 src/python/rbbl/core_convolver_uniform.cpp    | 37 ++++++++++++-------
 .../rbbl/crossfading_convolver_uniform.cpp    | 25 +++++++++----
 .../rbbl/interpolating_convolver_uniform.cpp  | 27 +++++++++-----
 .../rbbl/multichannel_convolver_uniform.cpp   | 27 +++++++++-----
 4 files changed, 76 insertions(+), 40 deletions(-)

diff --git a/src/python/rbbl/core_convolver_uniform.cpp b/src/python/rbbl/core_convolver_uniform.cpp
index 8b2029f..5d356f7 100644
--- a/src/python/rbbl/core_convolver_uniform.cpp
+++ b/src/python/rbbl/core_convolver_uniform.cpp
@@ -31,23 +31,32 @@ void exportCoreConvolverUniform( pybind11::module & m, char const * name )
   pybind11::class_< CoreConvolverUniform<ElementType> >( m, name )
     .def( pybind11::init<std::size_t, std::size_t, std::size_t, std::size_t, std::size_t,
       efl::BasicMatrix<ElementType> const &, std::size_t, char const *>(),
-        pybind11::arg("numberOfInputs " ),
-        pybind11::arg( "numberOfOutputs " ),
-        pybind11::arg( "blockLength " ),
-        pybind11::arg( "maxFilterLength " ),
-        pybind11::arg( "maxFilterEntries " ),
+        pybind11::arg( "numberOfInputs" ),
+        pybind11::arg( "numberOfOutputs" ),
+        pybind11::arg( "blockLength" ),
+        pybind11::arg( "maxFilterLength" ),
+        pybind11::arg( "maxFilterEntries" ),
         pybind11::arg( "initialFilters" ),
-        pybind11::arg( "alignment " ) = 0,
-        pybind11::arg( "fftImplementation ") = "default" )
-    .def_property_readonly_static( "numberOfInputs", &CoreConvolverUniform<ElementType>::numberOfInputs )
-    .def_property_readonly_static( "numberOfOutputs", &CoreConvolverUniform<ElementType>::numberOfOutputs )
-    .def_property_readonly_static( "blockLength", &CoreConvolverUniform<ElementType>::blockLength )
-    .def_property_readonly_static( "maxNumberOfFilterEntries", &CoreConvolverUniform<ElementType>::maxNumberOfFilterEntries )
-    .def_property_readonly_static( "maxFilterLength", &CoreConvolverUniform<ElementType>::maxFilterLength )
+        pybind11::arg( "alignment" ) = 0,
+        pybind11::arg( "fftImplementation" ) = "default" )
+    .def_property_readonly( "numberOfInputs", &CoreConvolverUniform<ElementType>::numberOfInputs )
+    .def_property_readonly( "numberOfOutputs", &CoreConvolverUniform<ElementType>::numberOfOutputs )
+    .def_property_readonly( "blockLength", &CoreConvolverUniform<ElementType>::blockLength )
+    .def_property_readonly( "maxNumberOfFilterEntries", &CoreConvolverUniform<ElementType>::maxNumberOfFilterEntries )
+    .def_property_readonly( "maxFilterLength", &CoreConvolverUniform<ElementType>::maxFilterLength )
     .def( "clearFilters", &CoreConvolverUniform<ElementType>::clearFilters )
     .def( "initFilters", &CoreConvolverUniform<ElementType>::initFilters, pybind11::arg( "newFilters" ) )
-    .def( "setImpulseResponse", &CoreConvolverUniform<ElementType>::setImpulseResponse,
-      pybind11::arg("ir"), pybind11::arg( "filterLength"), pybind11::arg( "filterIdx" ), pybind11::arg( "alignment" ) = 0 )
+    .def( "setImpulseResponse", []( CoreConvolverUniform<ElementType> & convolver,
+         pybind11::array_t<ElementType, pybind11::array::c_style | pybind11::array::forcecast> const & ir,
+         std::size_t filterLength, std::size_t filterIdx, std::size_t alignment )
+       {
+         if( ( ir.ndim() != 1 ) or ( ir.shape( 0 ) < static_cast<pybind11::ssize_t>(filterLength) ) )
+         {
+           throw std::invalid_argument( "setImpulseResponse(): The impulse response must be a 1D array with at least filterLength elements." );
+         }
+         convolver.setImpulseResponse( ir.data(), filterLength, filterIdx, alignment );
+       },
+      pybind11::arg( "ir" ), pybind11::arg( "filterLength" ), pybind11::arg( "filterIdx" ), pybind11::arg( "alignment" ) = 0 )
   ;
 }
 
diff --git a/src/python/rbbl/crossfading_convolver_uniform.cpp b/src/python/rbbl/crossfading_convolver_uniform.cpp
index 4615893..c0d23d6 100644
--- a/src/python/rbbl/crossfading_convolver_uniform.cpp
+++ b/src/python/rbbl/crossfading_convolver_uniform.cpp
@@ -88,13 +88,13 @@ void exportCrossfadingConvolverUniform( pybind11::module & m, char const * name
         pybind11::arg( "initialFilters" ),
         pybind11::arg( "alignment" ) = 0,
         pybind11::arg( "fftImplementation" ) = "default" )
-    .def_property_readonly_static( "numberOfInputs", &CrossfadingConvolverUniform<ElementType>::numberOfInputs )
-    .def_property_readonly_static( "numberOfOutputs", &CrossfadingConvolverUniform<ElementType>::numberOfOutputs )
-    .def_property_readonly_static( "blockLength", &CrossfadingConvolverUniform<ElementType>::blockLength )
-    .def_property_readonly_static( "maxNumberOfRoutingPoints", &CrossfadingConvolverUniform<ElementType>::maxNumberOfRoutingPoints )
-    .def_property_readonly_static( "maxNumberOfFilterEntries", &CrossfadingConvolverUniform<ElementType>::maxNumberOfFilterEntries )
-    .def_property_readonly_static( "maxFilterLength", &CrossfadingConvolverUniform<ElementType>::maxFilterLength )
-    .def_property_readonly_static( "numberOfRoutingPoints", &CrossfadingConvolverUniform<ElementType>::numberOfRoutingPoints )
+    .def_property_readonly( "numberOfInputs", &CrossfadingConvolverUniform<ElementType>::numberOfInputs )
+    .def_property_readonly( "numberOfOutputs", &CrossfadingConvolverUniform<ElementType>::numberOfOutputs )
+    .def_property_readonly( "blockLength", &CrossfadingConvolverUniform<ElementType>::blockLength )
+    .def_property_readonly( "maxNumberOfRoutingPoints", &CrossfadingConvolverUniform<ElementType>::maxNumberOfRoutingPoints )
+    .def_property_readonly( "maxNumberOfFilterEntries", &CrossfadingConvolverUniform<ElementType>::maxNumberOfFilterEntries )
+    .def_property_readonly( "maxFilterLength", &CrossfadingConvolverUniform<ElementType>::maxFilterLength )
+    .def_property_readonly( "numberOfRoutingPoints", &CrossfadingConvolverUniform<ElementType>::numberOfRoutingPoints )
     .def( "process", []( CrossfadingConvolverUniform<ElementType> & convolver, pybind11::array const & input )
        { return wrapProcess( convolver, input ); }, pybind11::arg("input") )
     .def( "clearRoutingTable", &CrossfadingConvolverUniform<ElementType>::clearRoutingTable )
@@ -107,7 +107,16 @@ void exportCrossfadingConvolverUniform( pybind11::module & m, char const * name
         pybind11::arg( "inputIndex" ), pybind11::arg( "outputIndex" ) )
     .def( "clearFilters", &CrossfadingConvolverUniform<ElementType>::clearFilters )
     .def( "initFilters", &CrossfadingConvolverUniform<ElementType>::initFilters, pybind11::arg( "newFilters" ) )
-    .def( "setImpulseResponse", &CrossfadingConvolverUniform<ElementType>::setImpulseResponse,
+    .def( "setImpulseResponse", []( CrossfadingConvolverUniform<ElementType> & convolver,
+         pybind11::array_t<ElementType, pybind11::array::c_style | pybind11::array::forcecast> const & ir,
+         std::size_t filterLength, std::size_t filterIdx, bool startTransition, std::size_t alignment )
+       {
+         if( ( ir.ndim() != 1 ) or ( ir.shape( 0 ) < static_cast<pybind11::ssize_t>(filterLength) ) )
+         {
+           throw std::invalid_argument( "setImpulseResponse(): The impulse response must be a 1D array with at least filterLength elements." );
+         }
+         convolver.setImpulseResponse( ir.data(), filterLength, filterIdx, startTransition, alignment );
+       },
       pybind11::arg("ir"), pybind11::arg( "filterLength"), pybind11::arg( "filterIdx" ),
       pybind11::arg( "startTransition" ), pybind11::arg( "alignment" ) = 0 )
   ;
diff --git a/src/python/rbbl/interpolating_convolver_uniform.cpp b/src/python/rbbl/interpolating_convolver_uniform.cpp
index 51c4a15..f77a99d 100644
--- a/src/python/rbbl/interpolating_convolver_uniform.cpp
+++ b/src/python/rbbl/interpolating_convolver_uniform.cpp
@@ -93,14 +93,14 @@ void exportInterpolatingConvolverUniform( pybind11::module & m, char const * nam
         pybind11::arg( "initialFilters" ) /*= pml::MatrixParameter<ElementType>()*/,
         pybind11::arg( "alignment" ) = 0,
         pybind11::arg( "fftImplementation") = "default" )
-    .def_property_readonly_static( "numberOfInputs", &InterpolatingConvolverUniform<ElementType>::numberOfInputs )
-    .def_property_readonly_static( "numberOfOutputs", &InterpolatingConvolverUniform<ElementType>::numberOfOutputs )
-    .def_property_readonly_static( "blockLength", &InterpolatingConvolverUniform<ElementType>::blockLength )
-    .def_property_readonly_static( "maxNumberOfRoutingPoints", &InterpolatingConvolverUniform<ElementType>::maxNumberOfRoutingPoints )
-    .def_property_readonly_static( "maxNumberOfFilterEntries", &InterpolatingConvolverUniform<ElementType>::maxNumberOfFilterEntries )
-    .def_property_readonly_static( "maxFilterLength", &InterpolatingConvolverUniform<ElementType>::maxFilterLength )
-    .def_property_readonly_static( "numberOfRoutingPoints", &InterpolatingConvolverUniform<ElementType>::numberOfRoutingPoints )
-    .def_property_readonly_static( "numberOfInterpolants", &InterpolatingConvolverUniform<ElementType>::numberOfInterpolants )
+    .def_property_readonly( "numberOfInputs", &InterpolatingConvolverUniform<ElementType>::numberOfInputs )
+    .def_property_readonly( "numberOfOutputs", &InterpolatingConvolverUniform<ElementType>::numberOfOutputs )
+    .def_property_readonly( "blockLength", &InterpolatingConvolverUniform<ElementType>::blockLength )
+    .def_property_readonly( "maxNumberOfRoutingPoints", &InterpolatingConvolverUniform<ElementType>::maxNumberOfRoutingPoints )
+    .def_property_readonly( "maxNumberOfFilterEntries", &InterpolatingConvolverUniform<ElementType>::maxNumberOfFilterEntries )
+    .def_property_readonly( "maxFilterLength", &InterpolatingConvolverUniform<ElementType>::maxFilterLength )
+    .def_property_readonly( "numberOfRoutingPoints", &InterpolatingConvolverUniform<ElementType>::numberOfRoutingPoints )
+    .def_property_readonly( "numberOfInterpolants", &InterpolatingConvolverUniform<ElementType>::numberOfInterpolants )
     .def( "process", []( InterpolatingConvolverUniform<ElementType> & convolver, pybind11::array const & input )
        { return wrapProcess( convolver, input ); }, pybind11::arg("input") )
     .def( "clearRoutingTable", &InterpolatingConvolverUniform<ElementType>::clearRoutingTable )
@@ -113,7 +113,16 @@ void exportInterpolatingConvolverUniform( pybind11::module & m, char const * nam
         pybind11::arg( "inputIndex" ), pybind11::arg( "outputIndex" ) )
     .def( "clearFilters", &InterpolatingConvolverUniform<ElementType>::clearFilters )
     .def( "initFilters", &InterpolatingConvolverUniform<ElementType>::initFilters, pybind11::arg( "newFilters" ) )
-    .def( "setImpulseResponse", &InterpolatingConvolverUniform<ElementType>::setImpulseResponse,
+    .def( "setImpulseResponse", []( InterpolatingConvolverUniform<ElementType> & convolver,
+         pybind11::array_t<ElementType, pybind11::array::c_style | pybind11::array::forcecast> const & ir,
+         std::size_t filterLength, std::size_t filterIdx, std::size_t alignment )
+       {
+         if( ( ir.ndim() != 1 ) or ( ir.shape( 0 ) < static_cast<pybind11::ssize_t>(filterLength) ) )
+         {
+           throw std::invalid_argument( "setImpulseResponse(): The impulse response must be a 1D array with at least filterLength elements." );
+         }
+         convolver.setImpulseResponse( ir.data(), filterLength, filterIdx, alignment );
+       },
       pybind11::arg("ir"), pybind11::arg( "filterLength"), pybind11::arg( "filterIdx" ),
       pybind11::arg( "alignment" ) = 0 )
     .def( "setInterpolant", &InterpolatingConvolverUniform<ElementType>::setInterpolant, pybind11::arg( "interpolant" ), pybind11::arg( "startTransition" ) )
diff --git a/src/python/rbbl/multichannel_convolver_uniform.cpp b/src/python/rbbl/multichannel_convolver_uniform.cpp
index ec7c241..4d07570 100644
--- a/src/python/rbbl/multichannel_convolver_uniform.cpp
+++ b/src/python/rbbl/multichannel_convolver_uniform.cpp
@@ -88,14 +88,14 @@ void exportMultichannelConvolverUniform( pybind11::module & m, char const * name
         pybind11::arg( "initialFilters" ),
         pybind11::arg( "alignment" ) = 0,
         pybind11::arg( "fftImplementation" ) = "default" )
-    .def_property_readonly_static( "numberOfInputs", &MultichannelConvolverUniform<ElementType>::numberOfInputs )
-    .def_property_readonly_static( "numberOfOutputs", &MultichannelConvolverUniform<ElementType>::numberOfOutputs )
-    .def_property_readonly_static( "blockLength", &MultichannelConvolverUniform<ElementType>::blockLength )
-    .def_property_readonly_static( "maxNumberOfRoutingPoints", &MultichannelConvolverUniform<ElementType>::maxNumberOfRoutingPoints )
-    .def_property_readonly_static( "maxNumberOfFilterEntries", &MultichannelConvolverUniform<ElementType>::maxNumberOfFilterEntries )
-    .def_property_readonly_static( "maxFilterLength", &MultichannelConvolverUniform<ElementType>::maxFilterLength )
-    .def_property_readonly_static( "numberOfRoutingPoints", &MultichannelConvolverUniform<ElementType>::numberOfRoutingPoints )
-//    .def_property_readonly_static( "numberOfRoutings", &MultichannelConvolverUniform<ElementType>::numberOfRoutings )
+    .def_property_readonly( "numberOfInputs", &MultichannelConvolverUniform<ElementType>::numberOfInputs )
+    .def_property_readonly( "numberOfOutputs", &MultichannelConvolverUniform<ElementType>::numberOfOutputs )
+    .def_property_readonly( "blockLength", &MultichannelConvolverUniform<ElementType>::blockLength )
+    .def_property_readonly( "maxNumberOfRoutingPoints", &MultichannelConvolverUniform<ElementType>::maxNumberOfRoutingPoints )
+    .def_property_readonly( "maxNumberOfFilterEntries", &MultichannelConvolverUniform<ElementType>::maxNumberOfFilterEntries )
+    .def_property_readonly( "maxFilterLength", &MultichannelConvolverUniform<ElementType>::maxFilterLength )
+    .def_property_readonly( "numberOfRoutingPoints", &MultichannelConvolverUniform<ElementType>::numberOfRoutingPoints )
+//    .def_property_readonly( "numberOfRoutings", &MultichannelConvolverUniform<ElementType>::numberOfRoutings )
     .def( "process", []( MultichannelConvolverUniform<ElementType> & convolver, pybind11::array const & input ) 
        { return wrapProcess( convolver, input ); }, pybind11::arg("input") )
     .def( "clearRoutingTable", &MultichannelConvolverUniform<ElementType>::clearRoutingTable )
@@ -108,7 +108,16 @@ void exportMultichannelConvolverUniform( pybind11::module & m, char const * name
         pybind11::arg( "inputIndex" ), pybind11::arg( "outputIndex" ) )
     .def( "clearFilters", &MultichannelConvolverUniform<ElementType>::clearFilters )
     .def( "initFilters", &MultichannelConvolverUniform<ElementType>::initFilters, pybind11::arg( "newFilters" ) )
-    .def( "setImpulseResponse", &MultichannelConvolverUniform<ElementType>::setImpulseResponse,
+    .def( "setImpulseResponse", []( MultichannelConvolverUniform<ElementType> & convolver,
+         pybind11::array_t<ElementType, pybind11::array::c_style | pybind11::array::forcecast> const & ir,
+         std::size_t filterLength, std::size_t filterIdx, std::size_t alignment )
+       {
+         if( ( ir.ndim() != 1 ) or ( ir.shape( 0 ) < static_cast<pybind11::ssize_t>(filterLength) ) )
+         {
+           throw std::invalid_argument( "setImpulseResponse(): The impulse response must be a 1D array with at least filterLength elements." );
+         }
+         convolver.setImpulseResponse( ir.data(), filterLength, filterIdx, alignment );
+       },
       pybind11::arg("ir"), pybind11::arg( "filterLength"), pybind11::arg( "filterIdx" ), pybind11::arg( "alignment" ) = 0 )
   ;
 }
-- 
2.43.0


From 2d6e937e05b8d10f434b7d5b92aa76aab57b9f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:46 +0000
Subject: [PATCH 091/203] fix: let the static members and the list length be
 called from Python

---
 src/python/rbbl/filter_routing.cpp          | 2 +-
 src/python/rbbl/interpolation_parameter.cpp | 2 +-
 src/python/rbbl/sparse_gain_routing.cpp     | 2 +-
 src/python/visr/channel_list.cpp            | 2 +-
 src/python/visr/component.cpp               | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/python/rbbl/filter_routing.cpp b/src/python/rbbl/filter_routing.cpp
index e0ec8d3..d8f2e9b 100644
--- a/src/python/rbbl/filter_routing.cpp
+++ b/src/python/rbbl/filter_routing.cpp
@@ -43,7 +43,7 @@ void exportFilterRouting( pybind11::module & m)
         }),
     pybind11::arg("entries"), "Constructor from Python list or iterable of type FilterRouting" )
     .def( pybind11::init<const FilterRoutingList &>() )
-    .def_static( "fromJson", [](FilterRoutingList &, std::string const & str ){ return FilterRoutingList::fromJson( str ); } )
+    .def_static( "fromJson", []( std::string const & str ){ return FilterRoutingList::fromJson( str ); } )
     .def( "parseJson", static_cast<void(FilterRoutingList::*)(std::string const &)>(&FilterRoutingList::parseJson), pybind11::arg("initString") )
     .def_property_readonly("empty", &FilterRoutingList::empty )
     .def_property_readonly("size", &FilterRoutingList::size )
diff --git a/src/python/rbbl/interpolation_parameter.cpp b/src/python/rbbl/interpolation_parameter.cpp
index a2a8a3b..89056b3 100644
--- a/src/python/rbbl/interpolation_parameter.cpp
+++ b/src/python/rbbl/interpolation_parameter.cpp
@@ -27,7 +27,7 @@ void exportInterpolationParameter( pybind11::module & m)
     .def( py::init<InterpolationParameter::IdType, std::size_t>(), py::arg("id"), py::arg( "numberOfInterpolants" ) )
     .def( py::init<InterpolationParameter::IdType, InterpolationParameter::IndexContainer const &, InterpolationParameter::WeightContainer const &>(),
       py::arg( "id" ), py::arg( "indices" ), py::arg( "weights" ) )
-    .def_property_readonly_static( "invalidIndex", []( InterpolationParameter const &){ return InterpolationParameter::cInvalidIndex; } )
+    .def_property_readonly_static( "invalidIndex", []( py::object /*self*/ ){ return InterpolationParameter::cInvalidIndex; } )
     .def_property_readonly( "numberOfInterpolants", &InterpolationParameter::numberOfInterpolants )
     .def_property( "id", &InterpolationParameter::id, &InterpolationParameter::setId )
     .def( "index", &InterpolationParameter::index, py::arg("idx") )
diff --git a/src/python/rbbl/sparse_gain_routing.cpp b/src/python/rbbl/sparse_gain_routing.cpp
index 22cec37..5caec1f 100644
--- a/src/python/rbbl/sparse_gain_routing.cpp
+++ b/src/python/rbbl/sparse_gain_routing.cpp
@@ -42,7 +42,7 @@ void exportSparseGainRouting( pybind11::module & m)
         }),
     pybind11::arg("entries"), "Constructor from Python list or iterable of type FilterRouting" )
     .def( pybind11::init<const SparseGainRoutingList &>(), "Copy constructor" )
-    .def_static( "fromJson", []( SparseGainRoutingList &, std::string const & str ){ return SparseGainRoutingList::fromJson( str ); } )
+    .def_static( "fromJson", []( std::string const & str ){ return SparseGainRoutingList::fromJson( str ); } )
     .def( "parseJson", static_cast<void(SparseGainRoutingList::*)(std::string const &)>(&SparseGainRoutingList::parseJson), pybind11::arg("initString") )
     .def_property_readonly("empty", &SparseGainRoutingList::empty )
     .def_property_readonly("size", &SparseGainRoutingList::size )
diff --git a/src/python/visr/channel_list.cpp b/src/python/visr/channel_list.cpp
index 826d91d..ac9084e 100644
--- a/src/python/visr/channel_list.cpp
+++ b/src/python/visr/channel_list.cpp
@@ -38,7 +38,7 @@ void exportChannelList( pybind11::module& m )
     .def( pybind11::init<ChannelRange const & >() )
     .def( "__str__", [](ChannelList const & self ){ std::stringstream outStr; outStr << self; return outStr.str();} )
     .def_property_readonly( "size", &ChannelList::size)
-    .def_property_readonly( "__len__", &ChannelList::size )
+    .def( "__len__", &ChannelList::size )
     .def( "__getitem__", static_cast<ChannelList::IndexType(ChannelList::*)(std::size_t)const>(&ChannelList::at) )
     .def( "__setitem__", [](ChannelList& cl, std::size_t index, ChannelList::IndexType val ){ cl.at(index) =val; } )
     .def("__iter__", [](ChannelList &v) { return pybind11::make_iterator(v.begin(), v.end());} )
diff --git a/src/python/visr/component.cpp b/src/python/visr/component.cpp
index e57f634..cf1af07 100644
--- a/src/python/visr/component.cpp
+++ b/src/python/visr/component.cpp
@@ -61,7 +61,7 @@ void exportComponent( pybind11::module& m )
   pybind11::class_<Component>( m, "Component" ) 
     .def( pybind11::init<SignalFlowContext &, char const*, CompositeComponent *>(),
       pybind11::arg("context"), pybind11::arg("name"), pybind11::arg("parent") )
-    .def_property_readonly_static( "nameSeparator", &Component::nameSeparator )
+    .def_property_readonly_static( "nameSeparator", []( pybind11::object /*self*/ ){ return Component::nameSeparator(); } )
     .def_property_readonly( "name", &Component::name )
     .def_property_readonly( "fullName", &Component::fullName, pybind11::return_value_policy::reference )
     .def( "isComposite", &Component::isComposite )
-- 
2.43.0


From 97b5ceb87433e58ed4ab898e642b7374082da584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:46 +0000
Subject: [PATCH 092/203] fix: return the text and resize the list in the
 filter coefficient functions called from Python

---
 src/python/rbbl/biquad_coefficient.cpp         | 16 ++++++++--------
 src/python/rbbl/parametric_iir_coefficient.cpp |  6 ++----
 2 files changed, 10 insertions(+), 12 deletions(-)

diff --git a/src/python/rbbl/biquad_coefficient.cpp b/src/python/rbbl/biquad_coefficient.cpp
index 3e6f086..b20d7c1 100644
--- a/src/python/rbbl/biquad_coefficient.cpp
+++ b/src/python/rbbl/biquad_coefficient.cpp
@@ -108,16 +108,16 @@ namespace
         } ), py::arg( "initList" ), "Constructor from list of biquads" )
       .def_static( "fromJson", []( std::string const & str ){ return BiquadCoefficientList<CoeffType>::fromJson( str ); } )
       .def_static( "fromXml", []( std::string const & str ){ return BiquadCoefficientList<CoeffType>::fromXml( str ); } )
-      .def_property( "size", &BiquadCoefficientList<CoeffType>::size, &BiquadCoefficientList<CoeffType>::size )
-      .def( "resize", &BiquadCoefficientList<CoeffType>::size )
+      .def_property( "size", &BiquadCoefficientList<CoeffType>::size, &BiquadCoefficientList<CoeffType>::resize )
+      .def( "resize", &BiquadCoefficientList<CoeffType>::resize, py::arg( "newSize" ) )
       .def( "__len__", &BiquadCoefficientList<CoeffType>::size )
       .def( "__setitem__", []( BiquadCoefficientList<CoeffType> & self, std::size_t idx, BiquadCoefficient<CoeffType> const & val ){ self.at(idx) = val; } )
       .def( "__getitem__", static_cast<BiquadCoefficient<CoeffType> const &(BiquadCoefficientList<CoeffType>::*)(std::size_t)const>(&BiquadCoefficientList<CoeffType>::at ) )
       .def( "__iter__", []( BiquadCoefficientList<CoeffType> & lst ){ return py::make_iterator( lst.begin(), lst.end()); } ) 
       .def( "loadJson", static_cast< void( BiquadCoefficientList<CoeffType>::*)(std::string const &)>(&BiquadCoefficientList<CoeffType>::loadJson ) )
-      .def( "loadXml", static_cast< void(BiquadCoefficientList<CoeffType>::*)(std::string const &)>(&BiquadCoefficientList<CoeffType>::loadJson) )
-      .def( "writeJson", []( BiquadCoefficientList<CoeffType> const & self ) { std::string str; self.writeJson( str ); return self; } )
-      .def( "writeXml", [](BiquadCoefficientList<CoeffType> const & self ){ std::string str; self.writeXml( str ); return self; } )
+      .def( "loadXml", static_cast< void(BiquadCoefficientList<CoeffType>::*)(std::string const &)>(&BiquadCoefficientList<CoeffType>::loadXml) )
+      .def( "writeJson", []( BiquadCoefficientList<CoeffType> const & self ) { std::string str; self.writeJson( str ); return str; } )
+      .def( "writeXml", [](BiquadCoefficientList<CoeffType> const & self ){ std::string str; self.writeXml( str ); return str; } )
       ;
   }
 
@@ -139,9 +139,9 @@ namespace
      .def( "__getitem__", []( BiquadCoefficientMatrix<CoeffType> & self, pybind11::tuple idx ) { return self( idx[0].cast<std::size_t>(), idx[1].cast<std::size_t>() ); }, pybind11::arg( "index" ) )
      .def( "setFilter", &BiquadCoefficientMatrix<CoeffType>::setFilter, py::arg( "filterIdx" ), py::arg( "newFilters" ) )
      .def( "loadJson", static_cast< void( BiquadCoefficientMatrix<CoeffType>::*)(std::string const &)>(&BiquadCoefficientMatrix<CoeffType>::loadJson ) )
-     .def( "loadXml", static_cast< void(BiquadCoefficientMatrix<CoeffType>::*)(std::string const &)>(&BiquadCoefficientMatrix<CoeffType>::loadJson) )
-     .def( "writeJson", []( BiquadCoefficientMatrix<CoeffType> const & self ) { std::string str; self.writeJson( str ); return self; } )
-     .def( "writeXml", [](BiquadCoefficientMatrix<CoeffType> const & self ){ std::string str; self.writeXml( str ); return self; } )
+     .def( "loadXml", static_cast< void(BiquadCoefficientMatrix<CoeffType>::*)(std::string const &)>(&BiquadCoefficientMatrix<CoeffType>::loadXml) )
+     .def( "writeJson", []( BiquadCoefficientMatrix<CoeffType> const & self ) { std::string str; self.writeJson( str ); return str; } )
+     .def( "writeXml", [](BiquadCoefficientMatrix<CoeffType> const & self ){ std::string str; self.writeXml( str ); return str; } )
     ;
   }
 
diff --git a/src/python/rbbl/parametric_iir_coefficient.cpp b/src/python/rbbl/parametric_iir_coefficient.cpp
index 7fb54a1..4cb7fc9 100644
--- a/src/python/rbbl/parametric_iir_coefficient.cpp
+++ b/src/python/rbbl/parametric_iir_coefficient.cpp
@@ -57,10 +57,8 @@ namespace
                     (&ParametricIirCoefficient<CoeffType>::fromJson ), py::arg("string") )
       .def_static( "fromXml", static_cast<ParametricIirCoefficient<CoeffType>(*)(std::string const &)>
                    (&ParametricIirCoefficient<CoeffType>::fromXml ), py::arg("string") )
-      .def( "writeJson", static_cast<void(ParametricIirCoefficient<CoeffType>::*)(std::string &) const>
-                   (&ParametricIirCoefficient<CoeffType>::writeJson ), py::arg("string") )
-      .def( "writeXml", static_cast<void(ParametricIirCoefficient<CoeffType>::*)(std::string &) const>
-                   (&ParametricIirCoefficient<CoeffType>::writeXml ), py::arg("string") )
+      .def( "writeJson", []( ParametricIirCoefficient<CoeffType> const & self ){ std::string str; self.writeJson( str ); return str; } )
+      .def( "writeXml", []( ParametricIirCoefficient<CoeffType> const & self ){ std::string str; self.writeXml( str ); return str; } )
 
     ;
   }
-- 
2.43.0


From 4431f0161bfbb3e89eeb24e9e76f33d4cbccab32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:46 +0000
Subject: [PATCH 093/203] fix: let signal routing parameters be sent from
 Python

---
 src/python/pml/signal_routing_parameter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/pml/signal_routing_parameter.cpp b/src/python/pml/signal_routing_parameter.cpp
index e069239..e087ed4 100644
--- a/src/python/pml/signal_routing_parameter.cpp
+++ b/src/python/pml/signal_routing_parameter.cpp
@@ -24,7 +24,7 @@ namespace py = pybind11;
 
 void exportSignalRoutingParameter( py::module & m)
 {
-  py::class_<SignalRoutingParameter> sigParam( m, "SignalRoutingParameter");
+  py::class_<SignalRoutingParameter, ParameterBase> sigParam( m, "SignalRoutingParameter");
 
   py::class_<SignalRoutingParameter::Entry>( sigParam, "Entry" )
     .def( py::init( []( std::size_t in, std::size_t out )
-- 
2.43.0


From 4afb9c366a5cacaa0bb05a3a06105f1ef9281f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:46 +0000
Subject: [PATCH 094/203] fix: tell signed and unsigned 16-bit sample types
 apart in Python

---
 src/python/visr/audio_sample_type.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/python/visr/audio_sample_type.cpp b/src/python/visr/audio_sample_type.cpp
index e06ef71..065e036 100644
--- a/src/python/visr/audio_sample_type.cpp
+++ b/src/python/visr/audio_sample_type.cpp
@@ -37,8 +37,8 @@ static AudioSampleTypeLookup getSampleTypeIdLookup() {
       AudioSampleTypeLookupEntry{ py::dtype::of<long double>(), AudioSampleType::longDoubleId },
       AudioSampleTypeLookupEntry{ py::dtype::of<uint8_t>(), AudioSampleType::uint8Id },
       AudioSampleTypeLookupEntry{ py::dtype::of<int8_t>(), AudioSampleType::int8Id },
-      AudioSampleTypeLookupEntry{ py::dtype::of<int16_t>(), AudioSampleType::uint16Id },
-      AudioSampleTypeLookupEntry{ py::dtype::of<int16_t>(), AudioSampleType::uint16Id },
+      AudioSampleTypeLookupEntry{ py::dtype::of<uint16_t>(), AudioSampleType::uint16Id },
+      AudioSampleTypeLookupEntry{ py::dtype::of<int16_t>(), AudioSampleType::int16Id },
       AudioSampleTypeLookupEntry{ py::dtype::of<uint32_t>(), AudioSampleType::uint32Id },
       AudioSampleTypeLookupEntry{ py::dtype::of<int32_t>(), AudioSampleType::int32Id },
       AudioSampleTypeLookupEntry{ py::dtype::of< std::complex<float> >(), AudioSampleType::complexFloatId },
-- 
2.43.0


From 74e683e6d846e210d1a0692b9fe0858e2b72e054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:46 +0000
Subject: [PATCH 095/203] fix: keep containers and objects alive while Python
 iterates over them or refers to their parts

---
 src/python/efl/basic_vector.cpp                     | 2 +-
 src/python/objectmodel/object_vector.cpp            | 2 +-
 src/python/objectmodel/point_source_with_reverb.cpp | 4 ++--
 src/python/pml/signal_routing_parameter.cpp         | 2 +-
 src/python/rbbl/biquad_coefficient.cpp              | 2 +-
 src/python/rbbl/filter_routing.cpp                  | 2 +-
 src/python/rbbl/interpolation_parameter.cpp         | 4 ++--
 src/python/rbbl/sparse_gain_routing.cpp             | 2 +-
 src/python/visr/channel_list.cpp                    | 2 +-
 9 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/python/efl/basic_vector.cpp b/src/python/efl/basic_vector.cpp
index 4cbf0c3..6689168 100644
--- a/src/python/efl/basic_vector.cpp
+++ b/src/python/efl/basic_vector.cpp
@@ -87,7 +87,7 @@ void exportBasicVector( py::module & m, char const * className )
   .def( "set", &setData<DataType> )
   .def( "__getitem__", []( BasicVector<DataType> const & vec, std::size_t idx ) { return vec.at( idx ); }, py::arg( "index" ) )
   .def( "__setitem__", []( BasicVector<DataType> & vec, std::size_t idx, DataType val ) { vec.at( idx ) = val; }, py::arg( "index" ), py::arg( "value" ) )
-  .def( "__iter__", []( BasicVector<DataType> & vec ){ return py::make_iterator(vec.data(), vec.data()+vec.size() ); }, "Return an iterator pair to the contents of the vector" )
+  .def( "__iter__", []( BasicVector<DataType> & vec ){ return py::make_iterator(vec.data(), vec.data()+vec.size() ); }, py::keep_alive<0, 1>(), "Return an iterator pair to the contents of the vector" )
   ;
 }
 
diff --git a/src/python/objectmodel/object_vector.cpp b/src/python/objectmodel/object_vector.cpp
index 74b3b53..0007eb0 100644
--- a/src/python/objectmodel/object_vector.cpp
+++ b/src/python/objectmodel/object_vector.cpp
@@ -30,7 +30,7 @@ void exportObjectVector( py::module & m )
        }
        return inst;
      }), py::arg("objects"), "Create an object vector out of a Pyhon list of objects." )
-    .def( "__iter__", [](ObjectVector& ov){ return py::make_iterator(ov.begin(), ov.end() ); }, py::return_value_policy::reference_internal, "Return a Python iterator over all contained objects." )
+    .def( "__iter__", [](ObjectVector& ov){ return py::make_iterator(ov.begin(), ov.end() ); }, py::keep_alive<0, 1>(), "Return a Python iterator over all contained objects." )
     .def_property_readonly( "size", &ObjectVector::size, "Return the number of objects in the vector" )
     .def_property_readonly( "empty", &ObjectVector::empty, "Return whether the object vector is empty." )
     .def( "at", static_cast<Object&(ObjectVector::*)(ObjectId)>(&ObjectVector::at), py::return_value_policy::reference_internal, py::arg("id"), "Return a reference to an object with the given id." )
diff --git a/src/python/objectmodel/point_source_with_reverb.cpp b/src/python/objectmodel/point_source_with_reverb.cpp
index 0ebcee4..1bad245 100644
--- a/src/python/objectmodel/point_source_with_reverb.cpp
+++ b/src/python/objectmodel/point_source_with_reverb.cpp
@@ -84,11 +84,11 @@ void exportPointSourceWithReverb( pybind11::module & m )
     .def( py::init<ObjectId>(), py::arg("objectId") )
     .def_property_readonly( "lateReverb",
       static_cast<PointSourceWithReverb::LateReverb const&(PointSourceWithReverb::*)()const>(&PointSourceWithReverb::lateReverb),
-      py::return_value_policy::reference )
+      py::return_value_policy::reference_internal )
     .def( "numberOfDiscreteReflections", &PointSourceWithReverb::numberOfDiscreteReflections )
     .def( "setNumberOfDiscreteReflections", &PointSourceWithReverb::setNumberOfDiscreteReflections, py::arg( "newNumber" ) )
     .def( "discreteReflection", static_cast<PointSourceWithReverb::DiscreteReflection&(PointSourceWithReverb::*)(std::size_t)>(&PointSourceWithReverb::discreteReflection),
-      py::arg( "idx" ), py::return_value_policy::reference )
+      py::arg( "idx" ), py::return_value_policy::reference_internal )
     .def( "setDiscreteReflections", &setDiscreteReflections, py::arg( "newReflections" ) )
   .def_property_readonly_static("numberOfDiscreteReflectionEqSections", []( py::object self ){ return PointSourceWithReverb::cNumDiscreteReflectionBiquads; }, "Number of wall reflection biquad sections." )
   .def_property_readonly_static("numberOfLateReflectionSubbands", []( py::object self ){ return PointSourceWithReverb::cNumberOfSubBands; }, "Number of filter subbands for the late reverb filter parameter." )
diff --git a/src/python/pml/signal_routing_parameter.cpp b/src/python/pml/signal_routing_parameter.cpp
index e087ed4..c37459e 100644
--- a/src/python/pml/signal_routing_parameter.cpp
+++ b/src/python/pml/signal_routing_parameter.cpp
@@ -46,7 +46,7 @@ void exportSignalRoutingParameter( py::module & m)
                        }
                        return inst;
                      } ), py::arg("initList") )
-   .def( "__iter__", [](SignalRoutingParameter& sr){ return py::make_iterator(sr.begin(), sr.end()); }, "Return a Python iterator over the contained routings." )
+   .def( "__iter__", [](SignalRoutingParameter& sr){ return py::make_iterator(sr.begin(), sr.end()); }, py::keep_alive<0, 1>(), "Return a Python iterator over the contained routings." )
    .def_property_readonly("size", &SignalRoutingParameter::size )
    .def( "swap", &SignalRoutingParameter::swap )
    .def_property_readonly("empty", &SignalRoutingParameter::empty )
diff --git a/src/python/rbbl/biquad_coefficient.cpp b/src/python/rbbl/biquad_coefficient.cpp
index b20d7c1..8acd296 100644
--- a/src/python/rbbl/biquad_coefficient.cpp
+++ b/src/python/rbbl/biquad_coefficient.cpp
@@ -113,7 +113,7 @@ namespace
       .def( "__len__", &BiquadCoefficientList<CoeffType>::size )
       .def( "__setitem__", []( BiquadCoefficientList<CoeffType> & self, std::size_t idx, BiquadCoefficient<CoeffType> const & val ){ self.at(idx) = val; } )
       .def( "__getitem__", static_cast<BiquadCoefficient<CoeffType> const &(BiquadCoefficientList<CoeffType>::*)(std::size_t)const>(&BiquadCoefficientList<CoeffType>::at ) )
-      .def( "__iter__", []( BiquadCoefficientList<CoeffType> & lst ){ return py::make_iterator( lst.begin(), lst.end()); } ) 
+      .def( "__iter__", []( BiquadCoefficientList<CoeffType> & lst ){ return py::make_iterator( lst.begin(), lst.end()); }, py::keep_alive<0, 1>() )
       .def( "loadJson", static_cast< void( BiquadCoefficientList<CoeffType>::*)(std::string const &)>(&BiquadCoefficientList<CoeffType>::loadJson ) )
       .def( "loadXml", static_cast< void(BiquadCoefficientList<CoeffType>::*)(std::string const &)>(&BiquadCoefficientList<CoeffType>::loadXml) )
       .def( "writeJson", []( BiquadCoefficientList<CoeffType> const & self ) { std::string str; self.writeJson( str ); return str; } )
diff --git a/src/python/rbbl/filter_routing.cpp b/src/python/rbbl/filter_routing.cpp
index d8f2e9b..450e634 100644
--- a/src/python/rbbl/filter_routing.cpp
+++ b/src/python/rbbl/filter_routing.cpp
@@ -48,7 +48,7 @@ void exportFilterRouting( pybind11::module & m)
     .def_property_readonly("empty", &FilterRoutingList::empty )
     .def_property_readonly("size", &FilterRoutingList::size )
     .def( "__len__", &FilterRoutingList::size )
-    .def( "__iter__", [](FilterRoutingList & fr ){ return pybind11::make_iterator(fr.begin(), fr.end() ); } )
+    .def( "__iter__", [](FilterRoutingList & fr ){ return pybind11::make_iterator(fr.begin(), fr.end() ); }, pybind11::keep_alive<0, 1>() )
     .def( "__repr__", [](FilterRoutingList const & frl )
     {
       std::stringstream ret;
diff --git a/src/python/rbbl/interpolation_parameter.cpp b/src/python/rbbl/interpolation_parameter.cpp
index 89056b3..c46fb1c 100644
--- a/src/python/rbbl/interpolation_parameter.cpp
+++ b/src/python/rbbl/interpolation_parameter.cpp
@@ -49,7 +49,7 @@ void exportInterpolationParameter( pybind11::module & m)
   			} ), py::arg( "interpolantList") )
   	.def( "__len__", &InterpolationParameterSet::size )
   	.def_property_readonly( "size", &InterpolationParameterSet::size )
-  	.def( "__iter__", [](InterpolationParameterSet & self){ return py::make_iterator(self.begin(), self.end() ); } )
+  	.def( "__iter__", [](InterpolationParameterSet & self){ return py::make_iterator(self.begin(), self.end() ); }, py::keep_alive<0, 1>() )
   	.def( "insert", [](InterpolationParameterSet & self, InterpolationParameter const & val ) { self.insert( val ); } )
   	.def( "__getitem__", [](InterpolationParameterSet & self, InterpolationParameter::IdType id )
   		  {
@@ -57,7 +57,7 @@ void exportInterpolationParameter( pybind11::module & m)
   	  	  	// C++14 would allow searching for a key without constructing an element.
   	  	  	InterpolationParameterSet::iterator const findIt = self.find( cmp );
   	  	  	return (findIt == self.end()) ? nullptr : &(*findIt);
-  		  }, py::arg("index"), py::return_value_policy::reference, "Return an interpolation parameter for a given filter index" )
+  		  }, py::arg("index"), py::return_value_policy::reference_internal, "Return an interpolation parameter for a given filter index" )
 	;
 }
 
diff --git a/src/python/rbbl/sparse_gain_routing.cpp b/src/python/rbbl/sparse_gain_routing.cpp
index 5caec1f..55f3e2d 100644
--- a/src/python/rbbl/sparse_gain_routing.cpp
+++ b/src/python/rbbl/sparse_gain_routing.cpp
@@ -48,7 +48,7 @@ void exportSparseGainRouting( pybind11::module & m)
     .def_property_readonly("size", &SparseGainRoutingList::size )
     .def( "swap", &SparseGainRoutingList::swap, py::arg( "rhs") )
     .def( "__len__", &SparseGainRoutingList::size )
-    .def( "__iter__", [](SparseGainRoutingList & sgr ){ return pybind11::make_iterator(sgr.begin(), sgr.end() ); } )
+    .def( "__iter__", [](SparseGainRoutingList & sgr ){ return pybind11::make_iterator(sgr.begin(), sgr.end() ); }, pybind11::keep_alive<0, 1>() )
     .def( "__getitem__", &SparseGainRoutingList::getEntry )
     .def( "__repr__", [](SparseGainRoutingList const & sgr )
     {
diff --git a/src/python/visr/channel_list.cpp b/src/python/visr/channel_list.cpp
index ac9084e..70da344 100644
--- a/src/python/visr/channel_list.cpp
+++ b/src/python/visr/channel_list.cpp
@@ -41,7 +41,7 @@ void exportChannelList( pybind11::module& m )
     .def( "__len__", &ChannelList::size )
     .def( "__getitem__", static_cast<ChannelList::IndexType(ChannelList::*)(std::size_t)const>(&ChannelList::at) )
     .def( "__setitem__", [](ChannelList& cl, std::size_t index, ChannelList::IndexType val ){ cl.at(index) =val; } )
-    .def("__iter__", [](ChannelList &v) { return pybind11::make_iterator(v.begin(), v.end());} )
+    .def("__iter__", [](ChannelList &v) { return pybind11::make_iterator(v.begin(), v.end());}, pybind11::keep_alive<0, 1>() )
     ;
 }
 
-- 
2.43.0


From f10937b837e4fbc5b2265fd1a2490edfc0d143df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:17 +0000
Subject: [PATCH 096/203] fix: check the indices passed from Python to filter
 matrices, positions, time-frequency data and reverb parameters

---
 .../objectmodel/point_source_with_reverb.cpp  |  2 +-
 src/python/pml/time_frequency_parameter.cpp   | 15 +++++++++
 src/python/rbbl/biquad_coefficient.cpp        | 32 ++++++++++++++++---
 src/python/rbbl/position_3d.cpp               | 13 ++++++--
 4 files changed, 54 insertions(+), 8 deletions(-)

diff --git a/src/python/objectmodel/point_source_with_reverb.cpp b/src/python/objectmodel/point_source_with_reverb.cpp
index 1bad245..2bd779e 100644
--- a/src/python/objectmodel/point_source_with_reverb.cpp
+++ b/src/python/objectmodel/point_source_with_reverb.cpp
@@ -63,7 +63,7 @@ void setArray( PointSourceWithReverb::LateReverb & param,
                CoeffSetter method,
                pybind11::array_t<float> const & values )
 {
-  if( values.shape()[0] != PointSourceWithReverb::cNumberOfSubBands )
+  if( (values.ndim() != 1) or (values.shape()[0] != PointSourceWithReverb::cNumberOfSubBands) )
   {
     throw std::invalid_argument( "PointSourceWithReverb::LateReverb::setArray() called with wrong array length." );
   }
diff --git a/src/python/pml/time_frequency_parameter.cpp b/src/python/pml/time_frequency_parameter.cpp
index 421f37c..cf3f0a8 100644
--- a/src/python/pml/time_frequency_parameter.cpp
+++ b/src/python/pml/time_frequency_parameter.cpp
@@ -26,6 +26,19 @@ namespace pml
 {
 namespace // unnamed
 {
+template< typename DataType >
+void checkIndex( TimeFrequencyParameter< DataType > const & param,
+                 py::tuple const & idx )
+{
+  if( idx[ 0 ].cast< std::size_t >() >= param.numberOfFrames() or
+      idx[ 1 ].cast< std::size_t >() >= param.numberOfChannels() or
+      idx[ 2 ].cast< std::size_t >() >= param.numberOfDftBins() )
+  {
+    throw std::out_of_range(
+        "TimeFrequencyParameter: Index exceeds the dimensions." );
+  }
+}
+
 template< typename DataType >
 void exportTimeFrequencyParameter( py::module & m, char const * className )
 {
@@ -105,6 +118,7 @@ void exportTimeFrequencyParameter( py::module & m, char const * className )
       .def(
           "__getitem__",
           []( TimeFrequencyParameter< DataType > const & self, py::tuple idx ) {
+            checkIndex( self, idx );
             return self.at( idx[ 0 ].cast< std::size_t >(),
                             idx[ 1 ].cast< std::size_t >(),
                             idx[ 2 ].cast< std::size_t >() );
@@ -114,6 +128,7 @@ void exportTimeFrequencyParameter( py::module & m, char const * className )
           "__setitem__",
           []( TimeFrequencyParameter< DataType > & self, py::tuple idx,
               ComplexType val ) {
+            checkIndex( self, idx );
             self.at( idx[ 0 ].cast< std::size_t >(),
                      idx[ 1 ].cast< std::size_t >(),
                      idx[ 2 ].cast< std::size_t >() ) = val;
diff --git a/src/python/rbbl/biquad_coefficient.cpp b/src/python/rbbl/biquad_coefficient.cpp
index 8acd296..67abb67 100644
--- a/src/python/rbbl/biquad_coefficient.cpp
+++ b/src/python/rbbl/biquad_coefficient.cpp
@@ -21,6 +21,18 @@ namespace py = pybind11;
 
 namespace 
 {
+  /**
+   * Check the row and the optional column index of an access to a matrix of biquads.
+   */
+  template< typename CoeffType >
+  void checkMatrixIndex( BiquadCoefficientMatrix<CoeffType> const & mtx, std::size_t row, std::size_t column = 0, bool checkColumn = false )
+  {
+    if( (row >= mtx.numberOfFilters()) or (checkColumn and (column >= mtx.numberOfSections()) ) )
+    {
+      throw std::out_of_range( "BiquadCoefficientMatrix: Index exceeds the matrix dimensions." );
+    }
+  }
+
   template< typename CoeffType >
   void exportBiquadCoefficient( pybind11::module & m, char const * className )
   {
@@ -131,12 +143,22 @@ namespace
      .def_property_readonly( "numberOfFilters", &BiquadCoefficientMatrix<CoeffType>::numberOfFilters )
      .def_property_readonly( "numberOfSections", &BiquadCoefficientMatrix<CoeffType>::numberOfSections )
      .def( "resize", &BiquadCoefficientMatrix<CoeffType>::resize, py::arg("numberOfFilters"), py::arg( "numberOfBiquads" ) )
-     .def( "__setitem__", []( BiquadCoefficientMatrix<CoeffType> & self, std::size_t idx, BiquadCoefficientList<CoeffType> const & val ){ self[idx] = val; } )
-     .def( "__getitem__", static_cast<BiquadCoefficientList<CoeffType> const &(BiquadCoefficientMatrix<CoeffType>::*)( std::size_t) const >
-      (&BiquadCoefficientMatrix<CoeffType>::operator[] ) )
+     .def( "__setitem__", []( BiquadCoefficientMatrix<CoeffType> & self, std::size_t idx, BiquadCoefficientList<CoeffType> const & val ){ checkMatrixIndex( self, idx ); self[idx] = val; } )
+     .def( "__getitem__", []( BiquadCoefficientMatrix<CoeffType> const & self, std::size_t idx ){ checkMatrixIndex( self, idx ); return self[idx]; } )
       .def( "__setitem__", []( BiquadCoefficientMatrix<CoeffType> & self, pybind11::tuple idx, BiquadCoefficient<CoeffType> const & val )
-        { self( idx[0].cast<std::size_t>(), idx[1].cast<std::size_t>() ) = val; } )
-     .def( "__getitem__", []( BiquadCoefficientMatrix<CoeffType> & self, pybind11::tuple idx ) { return self( idx[0].cast<std::size_t>(), idx[1].cast<std::size_t>() ); }, pybind11::arg( "index" ) )
+        {
+          std::size_t const row = idx[0].cast<std::size_t>();
+          std::size_t const column = idx[1].cast<std::size_t>();
+          checkMatrixIndex( self, row, column, true );
+          self( row, column ) = val;
+        } )
+     .def( "__getitem__", []( BiquadCoefficientMatrix<CoeffType> & self, pybind11::tuple idx )
+        {
+          std::size_t const row = idx[0].cast<std::size_t>();
+          std::size_t const column = idx[1].cast<std::size_t>();
+          checkMatrixIndex( self, row, column, true );
+          return self( row, column );
+        }, pybind11::arg( "index" ) )
      .def( "setFilter", &BiquadCoefficientMatrix<CoeffType>::setFilter, py::arg( "filterIdx" ), py::arg( "newFilters" ) )
      .def( "loadJson", static_cast< void( BiquadCoefficientMatrix<CoeffType>::*)(std::string const &)>(&BiquadCoefficientMatrix<CoeffType>::loadJson ) )
      .def( "loadXml", static_cast< void(BiquadCoefficientMatrix<CoeffType>::*)(std::string const &)>(&BiquadCoefficientMatrix<CoeffType>::loadXml) )
diff --git a/src/python/rbbl/position_3d.cpp b/src/python/rbbl/position_3d.cpp
index 2975aa8..7aca15f 100644
--- a/src/python/rbbl/position_3d.cpp
+++ b/src/python/rbbl/position_3d.cpp
@@ -24,6 +24,15 @@ namespace py = pybind11;
 namespace 
 {
 
+  inline std::size_t checkedIndex( std::size_t idx )
+  {
+    if( idx >= 3 )
+    {
+      throw std::out_of_range( "Position3D: Index exceeds the number of coordinates." );
+    }
+    return idx;
+  }
+
   template< typename Coordinate >
   void exportPosition3D( pybind11::module & m, char const * className )
   {
@@ -54,9 +63,9 @@ namespace
           );
         } )
       .def( "__getitem__", []( Position3D< Coordinate > const & pos, std::size_t idx )
-         { return pos[ idx ]; }, py::arg( "index" ) )
+         { return pos[ checkedIndex( idx ) ]; }, py::arg( "index" ) )
       .def( "__setitem__", []( Position3D< Coordinate > & pos, std::size_t idx, Coordinate val )
-         { pos[ idx ] = val; }, py::arg( "index" ), py::arg( "value" ) )
+         { pos[ checkedIndex( idx ) ] = val; }, py::arg( "index" ), py::arg( "value" ) )
       .def( "set", &Position3D< Coordinate >::set )
       .def( "set", []( Position3D< Coordinate > & self, 
          std::array< Coordinate, 3 > const & vec )
-- 
2.43.0


From 47705c343f4da0832874ddc23b0970afceb730a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:19 +0000
Subject: [PATCH 097/203] fix: name the types of Higher Order Ambisonics and
 channel objects in Python

---
 src/python/objectmodel/object_type.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/python/objectmodel/object_type.cpp b/src/python/objectmodel/object_type.cpp
index 09f2300..e4f1d09 100644
--- a/src/python/objectmodel/object_type.cpp
+++ b/src/python/objectmodel/object_type.cpp
@@ -23,6 +23,8 @@ void exportObjectType( pybind11::module & m )
     .value( "ExtendedSource", ObjectTypeId::ExtendedSource )
     .value( "PointSourceWithReverb", ObjectTypeId::PointSourceWithReverb )
     .value( "PointSourceExtent", ObjectTypeId::PointSourceExtent )
+    .value( "HoaSource", ObjectTypeId::HoaSource )
+    .value( "ChannelObject", ObjectTypeId::ChannelObject )
   ;
 }
 
-- 
2.43.0


From d7db21d191ff00268ab16dd27a1d89c9c7ba4bb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:19 +0000
Subject: [PATCH 098/203] fix: name the arguments of
 ListenerPosition.transform() in Python as they are used

---
 src/python/pml/listener_position.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/pml/listener_position.cpp b/src/python/pml/listener_position.cpp
index 1b1687f..4989755 100644
--- a/src/python/pml/listener_position.cpp
+++ b/src/python/pml/listener_position.cpp
@@ -100,7 +100,7 @@ void exportListenerPosition( pybind11::module & m)
       { self.translate( ListenerPosition::PositionType( pos[0], pos[1], pos[2] ) ); }, py::arg( "translationVector" ) )
     .def( "rotate", &ListenerPosition::rotate, py::arg( "rotationQuaternion" ) )
     .def( "rotateOrientation", &ListenerPosition::rotateOrientation, py::arg( "rotationQuaternion" ) )
-    .def( "transform", &ListenerPosition::transform,  py::arg( "translationVector" ), py::arg( "rotationQuaternion" ) )
+    .def( "transform", &ListenerPosition::transform, py::arg( "rotationQuaternion" ), py::arg( "translationVector" ) )
     .def("__str__", []( ListenerPosition const & pos )
          {
            std::stringstream desc;
-- 
2.43.0


From 5d396d1a65910b61b52ec6028bc159cd3d0c7eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:44 +0000
Subject: [PATCH 099/203] fix: no reference to the first section of an empty
 equaliser

---
 src/librbbl/biquad_coefficient.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/librbbl/biquad_coefficient.cpp b/src/librbbl/biquad_coefficient.cpp
index e535e9e..04eebfe 100644
--- a/src/librbbl/biquad_coefficient.cpp
+++ b/src/librbbl/biquad_coefficient.cpp
@@ -469,10 +469,10 @@ void BiquadCoefficientMatrix<CoeffType>::setFilter( std::size_t filterIdx, Biqua
     throw std::invalid_argument( "BiquadCoefficientMatrix::setFilter(): The number index exceeds maximum admissible value." );
   }
   BiquadCoefficientList<CoeffType> & row = mRows[filterIdx];
-  std::copy( &newFilter[0], &newFilter[0] + newFilter.size(), &row[0] );
-  std::fill_n( &row[0] + newFilter.size(),
-    numberOfSections()
-    - newFilter.size(), BiquadCoefficient<CoeffType>() );
+  for( std::size_t biqIdx( 0 ); biqIdx < numberOfSections(); ++biqIdx )
+  {
+    row[biqIdx] = (biqIdx < newFilter.size()) ? newFilter[biqIdx] : BiquadCoefficient<CoeffType>();
+  }
 }
 
 template< typename CoeffType >
-- 
2.43.0


From adfd940d3cd7adcbde0f5d4d18a0f612b48a0260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:12 +0000
Subject: [PATCH 100/203] fix: remove the space in the names of keyword
 arguments in Python

---
 src/python/pml/filter_routing_parameter.cpp      | 4 ++--
 src/python/pml/sparse_gain_routing_parameter.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/python/pml/filter_routing_parameter.cpp b/src/python/pml/filter_routing_parameter.cpp
index fb895f4..3031254 100644
--- a/src/python/pml/filter_routing_parameter.cpp
+++ b/src/python/pml/filter_routing_parameter.cpp
@@ -26,8 +26,8 @@ void exportFilterRoutingParameter( pybind11::module & m)
 {
   pybind11::class_<FilterRoutingParameter, ParameterBase, rbbl::FilterRouting>( m, "FilterRoutingParameter")
     .def_property_readonly_static( "staticType", []( pybind11::object /*self*/ ) { return FilterRoutingParameter::staticType(); } )
-    .def( pybind11::init<ParameterConfigBase const &>(), pybind11::arg(" config") )
-    .def( pybind11::init<visr::pml::EmptyParameterConfig const &>(), pybind11::arg( " config" ) )
+    .def( pybind11::init<ParameterConfigBase const &>(), pybind11::arg("config") )
+    .def( pybind11::init<visr::pml::EmptyParameterConfig const &>(), pybind11::arg( "config" ) )
   ;
 
   pybind11::class_<FilterRoutingListParameter, ParameterBase, rbbl::FilterRoutingList>( m, "FilterRoutingListParameter" )
diff --git a/src/python/pml/sparse_gain_routing_parameter.cpp b/src/python/pml/sparse_gain_routing_parameter.cpp
index 6950f74..fa730b0 100644
--- a/src/python/pml/sparse_gain_routing_parameter.cpp
+++ b/src/python/pml/sparse_gain_routing_parameter.cpp
@@ -25,8 +25,8 @@ void exportSparseGainRoutingParameter( pybind11::module & m)
 {
   pybind11::class_<SparseGainRoutingParameter, ParameterBase, rbbl::SparseGainRouting>( m, "SparseGainRoutingParameter")
     .def_property_readonly_static( "staticType", []( pybind11::object /*self*/ ) { return SparseGainRoutingParameter::staticType(); } )
-    .def( pybind11::init<ParameterConfigBase const &>(), pybind11::arg(" config") )
-    .def( pybind11::init<visr::pml::EmptyParameterConfig const &>(), pybind11::arg( " config" ) )
+    .def( pybind11::init<ParameterConfigBase const &>(), pybind11::arg("config") )
+    .def( pybind11::init<visr::pml::EmptyParameterConfig const &>(), pybind11::arg( "config" ) )
   ;
 
   pybind11::class_<SparseGainRoutingListParameter, ParameterBase, rbbl::SparseGainRoutingList>( m, "SparseGainRoutingListParameter" )
-- 
2.43.0


From c38a145b1b02b4ebfa78992309b34705b21c43ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:20 +0000
Subject: [PATCH 101/203] fix: check indices and array layouts in the panning
 functions called from Python

---
 src/libpanning/VBAP.h                    |  5 ++++
 src/python/panning/loudspeaker_array.cpp | 33 +++++++++++++++++----
 src/python/panning/vbap.cpp              | 37 +++++++++++++++++++++---
 3 files changed, 66 insertions(+), 9 deletions(-)

diff --git a/src/libpanning/VBAP.h b/src/libpanning/VBAP.h
index 31b916c..5c2e644 100644
--- a/src/libpanning/VBAP.h
+++ b/src/libpanning/VBAP.h
@@ -66,6 +66,11 @@ public:
    * @param z Cartesian z coordinate of the new listener position
    */
   void setListenerPosition( SampleType x, SampleType y, SampleType z );
+
+  /**
+   * Return the number of regular loudspeakers, i.e., the number of gains that are calculated.
+   */
+  std::size_t numberOfRegularLoudspeakers() const { return numRegLoudspeakers; }
   
 private:
   
diff --git a/src/python/panning/loudspeaker_array.cpp b/src/python/panning/loudspeaker_array.cpp
index d27f84e..2a90cb3 100644
--- a/src/python/panning/loudspeaker_array.cpp
+++ b/src/python/panning/loudspeaker_array.cpp
@@ -73,6 +73,30 @@ py::array getPositions( LoudspeakerArray const & la )
   return ret;
 }
 
+/** Triplet access with checked indices. */
+LoudspeakerArray::TripletType getTriplet( LoudspeakerArray const & array, std::size_t tripletIdx )
+{
+  if( tripletIdx >= array.getNumTriplets() )
+  {
+    throw py::index_error( "LoudspeakerArray: Triplet index exceeds the number of triplets." );
+  }
+  return array.getTriplet( tripletIdx );
+}
+
+std::size_t setTriplet( LoudspeakerArray & array, std::size_t tripletIdx, std::size_t l1, std::size_t l2, std::size_t l3 )
+{
+  if( tripletIdx >= array.getNumTriplets() )
+  {
+    throw py::index_error( "LoudspeakerArray: Triplet index exceeds the number of triplets." );
+  }
+  std::size_t const numSpeakers = array.getNumSpeakers();
+  if( (l1 >= numSpeakers) || (l2 >= numSpeakers) || (l3 >= numSpeakers) )
+  {
+    throw py::index_error( "LoudspeakerArray: Loudspeaker index exceeds the number of loudspeakers." );
+  }
+  return array.setTriplet( tripletIdx, l1, l2, l3 );
+}
+
 } // namespace unnamed
 
 void exportLoudspeakerArray( pybind11::module & m)
@@ -91,9 +115,8 @@ void exportLoudspeakerArray( pybind11::module & m)
     .def( "getSpeakerIndexFromId", &LoudspeakerArray::getSpeakerIndexFromId, pybind11::arg( "speakerId" ) )
     .def( "getSpeakerChannel", &LoudspeakerArray::getSpeakerChannel, pybind11::arg( "speakerIndex" ) )
     .def( "getSpeakerChannelFromId", &LoudspeakerArray::getSpeakerChannelFromId, pybind11::arg( "speakerId" ) )
-    .def( "setTriplet", &LoudspeakerArray::setTriplet, pybind11::arg("tripletIndex"), pybind11::arg("speakerId1"), pybind11::arg("speakerId2"), pybind11::arg("speakerId3"))
-    .def( "getTriplet", (LoudspeakerArray::TripletType &(LoudspeakerArray::*)(size_t iTri))&LoudspeakerArray::getTriplet)
-    .def( "getTriplet", (LoudspeakerArray::TripletType const &(LoudspeakerArray::*)(size_t iTri) const) &LoudspeakerArray::getTriplet)
+    .def( "setTriplet", &setTriplet, pybind11::arg("tripletIndex"), pybind11::arg("speakerId1"), pybind11::arg("speakerId2"), pybind11::arg("speakerId3"))
+    .def( "getTriplet", &getTriplet, pybind11::arg("tripletIndex") )
     .def_property_readonly("totNumberOfLoudspeakers", &LoudspeakerArray::getNumSpeakers)
     .def_property_readonly("numberOfRegularLoudspeakers", &LoudspeakerArray::getNumRegularSpeakers)
     .def_property_readonly("numberOfTriplets", &LoudspeakerArray::getNumTriplets)
@@ -102,8 +125,8 @@ void exportLoudspeakerArray( pybind11::module & m)
     .def_property_readonly("numberOfSubwoofers", &LoudspeakerArray::getNumSubwoofers)
     .def("subwooferChannelIndices", &getSubwooferChannelIndices )
     .def("subwooferChannelIndex", &LoudspeakerArray::getSubwooferChannel, pybind11::arg("subwooferIndex"))
-    .def("getSubwooferGains", &LoudspeakerArray::getSubwooferGains, pybind11::return_value_policy::reference)
-    .def("getReRoutingCoefficients", &LoudspeakerArray::getReroutingCoefficients, pybind11::return_value_policy::reference)
+    .def("getSubwooferGains", &LoudspeakerArray::getSubwooferGains, pybind11::return_value_policy::reference_internal)
+    .def("getReRoutingCoefficients", &LoudspeakerArray::getReroutingCoefficients, pybind11::return_value_policy::reference_internal)
     .def("getReRoutingCoefficient", &LoudspeakerArray::getReroutingCoefficient, pybind11::arg("virtualSpeakerIdx"), pybind11::arg("realSpeakerIdx"))
     .def("getLoudspeakerGainAdjustment", &LoudspeakerArray::getLoudspeakerGainAdjustment, pybind11::arg("speakerIdx"))
     .def("getLoudspeakerDelayAdjustment", &LoudspeakerArray::getLoudspeakerDelayAdjustment, pybind11::arg("speakerIdx"))
diff --git a/src/python/panning/vbap.cpp b/src/python/panning/vbap.cpp
index 81963ae..edc66dc 100644
--- a/src/python/panning/vbap.cpp
+++ b/src/python/panning/vbap.cpp
@@ -8,6 +8,9 @@
 #include <pybind11/numpy.h>
 #include <pybind11/stl.h>
 
+#include <stdexcept>
+#include <vector>
+
 namespace visr
 {
 using panning::VBAP;
@@ -20,6 +23,24 @@ namespace panning
 
 namespace py = pybind11;
 
+namespace
+{
+
+/** Store calculated gains in a vector of arbitrary layout. */
+void storeGains( VBAP const & self, std::vector<SampleType> const & result, py::array_t<SampleType> & gains )
+{
+  if( (gains.ndim() != 1) || (static_cast<std::size_t>(gains.shape( 0 )) < self.numberOfRegularLoudspeakers()) )
+  {
+    throw std::invalid_argument( "VBAP: The gains must be a vector with one element for each regular loudspeaker." );
+  }
+  for( std::size_t idx( 0 ); idx < result.size(); ++idx )
+  {
+    gains.mutable_at( idx ) = result[idx];
+  }
+}
+
+} // unnamed namespace
+
 void exportVBAP(pybind11::module & m)
 {
   pybind11::class_<VBAP>(m, "VBAP")
@@ -29,12 +50,20 @@ void exportVBAP(pybind11::module & m)
          pybind11::arg("listenerPosZ")=0.0)
     .def( "calculateGains",
           [](VBAP const & self, SampleType x, SampleType y, SampleType z, pybind11::array_t<SampleType> & gains, bool planeWave)
-          { self.calculateGains(x, y, z, static_cast<SampleType*>(gains.request().ptr), planeWave); },
-          py::arg("x"), py::arg("y"), py::arg("z"), py::arg("gains"), py::arg("planeWave") = false)
+          {
+            std::vector<SampleType> result( self.numberOfRegularLoudspeakers() );
+            self.calculateGains( x, y, z, result.data(), planeWave );
+            storeGains( self, result, gains );
+          },
+          py::arg("x"), py::arg("y"), py::arg("z"), py::arg("gains").noconvert(), py::arg("planeWave") = false)
     .def( "calculateGainsUnNormalised",
           []( VBAP const & self, SampleType x , SampleType y, SampleType z, pybind11::array_t<SampleType> & gains, bool planeWave )
-          { self.calculateGainsUnNormalised( x, y, z, static_cast<SampleType*>(gains.request().ptr), planeWave ); },
-          py::arg("x"), py::arg("y"), py::arg("z"), py::arg("gains"), py::arg("planeWave")=false )
+          {
+            std::vector<SampleType> result( self.numberOfRegularLoudspeakers() );
+            self.calculateGainsUnNormalised( x, y, z, result.data(), planeWave );
+            storeGains( self, result, gains );
+          },
+          py::arg("x"), py::arg("y"), py::arg("z"), py::arg("gains").noconvert(), py::arg("planeWave")=false )
     .def("setListenerPosition", &VBAP::setListenerPosition, py::arg("x"), py::arg("y"), py::arg("z") )
     ;
 }
-- 
2.43.0


From 622a06f51f36d063ea052295e16070678186a737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:11 +0000
Subject: [PATCH 102/203] fix: let ports outlive their component

---
 src/libvisr/impl/component_implementation.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/libvisr/impl/component_implementation.cpp b/src/libvisr/impl/component_implementation.cpp
index 52fb28f..32387ca 100644
--- a/src/libvisr/impl/component_implementation.cpp
+++ b/src/libvisr/impl/component_implementation.cpp
@@ -45,6 +45,15 @@ ComponentImplementation::ComponentImplementation( Component & component,
 
 ComponentImplementation::~ComponentImplementation()
 {
+  // Ports may outlive the component, e.g., if they are referenced in Python code.
+  for( AudioPortBaseImplementation * port : mAudioPorts )
+  {
+    port->removeParent();
+  }
+  for( ParameterPortBaseImplementation * port : mParameterPorts )
+  {
+    port->removeParent();
+  }
   if( not isTopLevel() )
   {
     mParent->unregisterChildComponent( this );
-- 
2.43.0


From 312c01d2dfd3993dfab06c0d7630c78cefe5fdd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:49 +0000
Subject: [PATCH 103/203] fix: audio ports in Python refer to the samples of a
 block, and outputs can be written

---
 src/python/visr/audio_port.cpp | 116 +++++++++++++++------------------
 1 file changed, 53 insertions(+), 63 deletions(-)

diff --git a/src/python/visr/audio_port.cpp b/src/python/visr/audio_port.cpp
index d7cdf4e..b23db93 100644
--- a/src/python/visr/audio_port.cpp
+++ b/src/python/visr/audio_port.cpp
@@ -33,77 +33,85 @@ namespace py = pybind11;
 namespace // unnamed
 {
 
-template<typename DataType>
-py::array_t<DataType> getInputBuffer( AudioInputT<DataType> & port )
+/**
+ * Return the number of samples per channel that can be accessed. Zero if the port is not connected to a running signal flow.
+ */
+std::size_t numberOfSamples( AudioPortBase const & port )
 {
-  py::buffer_info info ( const_cast<DataType*>(port.data()),
-    sizeof(DataType),
-    py::format_descriptor<DataType>::format(),
-    2 /* number of dimensions */,
-    { port.width(), port.channelStrideSamples() },
-    { sizeof( DataType ) * port.channelStrideSamples(), sizeof( DataType ) }
-  );
-  return py::array_t<DataType>( info );
+  auto const & impl = port.implementation();
+  return (impl.initialised() and impl.hasParent()) ? impl.parent().period() : 0;
 }
 
-template<typename DataType>
-py::array_t<DataType> getOutputBuffer( AudioOutputT<DataType> & port )
+/**
+ * Create a view to the complete buffer of a port.
+ */
+template<typename DataType, class Port >
+py::buffer_info getBuffer( Port & port )
 {
-  return py::array_t<DataType>( py::buffer_info( port.data(),
+  return py::buffer_info( const_cast<DataType*>(port.data()),
     sizeof( DataType ),
     py::format_descriptor<DataType>::format(),
     2 /* number of dimensions */,
-    { port.width(), port.channelStrideSamples() },
-    { sizeof( DataType ) * port.channelStrideSamples(), sizeof( DataType ) } ) );
+    { port.width(), numberOfSamples( port ) },
+    { sizeof( DataType ) * port.channelStrideSamples(), sizeof( DataType ) }
+  );
 }
 
-template<typename DataType>
-py::array_t<DataType> getInputChannel( AudioInputT<DataType> & port, std::size_t index )
+template<typename DataType, class Port >
+py::buffer_info getChannel( Port & port, std::size_t index )
 {
-  py::buffer_info info( const_cast<DataType*>(port.at(index)),
+  return py::buffer_info( const_cast<DataType*>(port.at(index)),
     sizeof( DataType ),
     py::format_descriptor<DataType>::format(),
     1 /* number of dimensions */,
-    { port.channelStrideSamples() },
+    { numberOfSamples( port ) },
     { sizeof( DataType ) }
   );
-  return py::array_t<DataType>( info );
 }
 
 template<typename DataType>
-py::array_t<DataType> getOutputChannel( AudioOutputT<DataType> & port, std::size_t index )
+py::array_t<DataType> getInputBuffer( AudioInputT<DataType> & port )
 {
-  return py::array_t<DataType>( py::buffer_info( const_cast<DataType*>(port.at( index )),
-    sizeof( DataType ),
-    py::format_descriptor<DataType>::format(),
-    1 /* number of dimensions */,
-    { port.channelStrideSamples() },
-    { sizeof( DataType ) } ) );
+  return py::array_t<DataType>( getBuffer<DataType>( port ) );
+}
+
+template<typename DataType>
+py::array_t<DataType> getInputChannel( AudioInputT<DataType> & port, std::size_t index )
+{
+  return py::array_t<DataType>( getChannel<DataType>( port, index ) );
+}
+
+// Outputs return arrays that refer to the buffer, such that they can be written to.
+template<typename DataType>
+py::array_t<DataType> getOutputBuffer( py::object self )
+{
+  return py::array_t<DataType>( getBuffer<DataType>( self.cast<AudioOutputT<DataType> &>() ), self );
 }
 
 template<typename DataType>
-void setOutputBuffer( AudioOutputT<DataType> & port, py::array_t<DataType> & matrix )
+py::array_t<DataType> getOutputChannel( py::object self, std::size_t index )
+{
+  return py::array_t<DataType>( getChannel<DataType>( self.cast<AudioOutputT<DataType> &>(), index ), self );
+}
+
+template<typename DataType>
+void setOutputBuffer( AudioOutputT<DataType> & port, py::array_t<DataType> const & matrix )
 {
-  py::buffer_info info = matrix.request();
-  // TODO: check compatibility of matrices.
   std::size_t const numChannels = port.width();
-  std::size_t const bufferSize = port.channelStrideSamples();  // Should be blockSize
-  if( (info.ndim != 2) or (info.shape[0] != static_cast<py::ssize_t>(numChannels))
-      or (info.shape[1] != static_cast<py::ssize_t>(bufferSize) ) )  {
+  std::size_t const bufferSize = numberOfSamples( port );
+  if( (matrix.ndim() != 2) or (matrix.shape( 0 ) != static_cast<py::ssize_t>(numChannels))
+      or (matrix.shape( 1 ) != static_cast<py::ssize_t>(bufferSize)) )
+  {
     throw std::invalid_argument( "AudioOutputPort.set(): matrix shape does not match." );
   }
   // Perform copying
   // TODO: Replace by optimised implementation
-  std::size_t const stride0 = info.strides[0] / sizeof(DataType);
-  std::size_t const stride1 = info.strides[1] / sizeof(DataType);
-  DataType const * srcPtr = matrix.data();
   for( std::size_t chIdx(0); chIdx < numChannels; ++chIdx )
   {
     DataType * destPtr = port[chIdx];
-    DataType const * chPtr = srcPtr + stride0 * chIdx;
-    for( std::size_t sampleIdx(0); sampleIdx < bufferSize; ++sampleIdx, ++destPtr, chPtr += stride1 )
+    for( std::size_t sampleIdx(0); sampleIdx < bufferSize; ++sampleIdx )
     {
-      *destPtr = *chPtr;
+      destPtr[sampleIdx] = matrix.at( chIdx, sampleIdx );
     }
   }
 }
@@ -115,16 +123,7 @@ void exportAudioInput( py::module & m, char const * name )
   py::class_<AudioInputT<DataType>, AudioInputBase >( m, name, py::buffer_protocol() )
     .def( py::init<char const*, Component &, std::size_t>(),
       py::arg("name"), py::arg("parent"), py::arg("width") = 0 )
-    .def_buffer( []( AudioInputT<DataType> &port ) -> py::buffer_info
-  {
-    return py::buffer_info( const_cast<DataType*>(port.data()),
-      sizeof( DataType ),
-      py::format_descriptor<DataType>::format(),
-      2 /* number of dimensions */,
-      { port.width(), port.channelStrideSamples() },
-      { sizeof( DataType ) * port.channelStrideSamples(), sizeof( DataType ) }
-    );
-  } )
+    .def_buffer( &getBuffer<DataType, AudioInputT<DataType> > )
   .def( "data", &getInputBuffer<DataType> )
   .def( "channel", &getInputChannel<DataType>, py::arg("index") )
   .def( "__getitem__", &getInputChannel<DataType>, py::arg( "index" ) )
@@ -138,22 +137,13 @@ void exportAudioOutput( py::module & m, char const * name )
   py::class_<AudioOutputT<DataType>, AudioOutputBase >( m, name, py::buffer_protocol() )
     .def( py::init<char const*, Component &, std::size_t>(),
       py::arg( "name" ), py::arg( "parent" ), py::arg( "width" ) = 0 )
-    .def_buffer( []( AudioOutputT<DataType> &port ) -> py::buffer_info
-  {
-    return py::buffer_info( const_cast<DataType*>(port.data()),
-      sizeof( DataType ),
-      py::format_descriptor<DataType>::format(),
-      2 /* number of dimensions */,
-      { port.width(), port.channelStrideSamples() },
-      { sizeof( DataType ) * port.channelStrideSamples(), sizeof( DataType ) }
-    );
-  } )
-
-    .def( "data", &getOutputBuffer<DataType>, py::return_value_policy::reference_internal )
+    .def_buffer( &getBuffer<DataType, AudioOutputT<DataType> > )
+
+    .def( "data", &getOutputBuffer<DataType> )
     .def( "set", &setOutputBuffer<DataType> )
     // TODO: can we get an assign operator?
-    .def( "channel", &getOutputChannel<DataType>, py::return_value_policy::reference_internal, py::arg( "index" ) )
-    .def( "__getitem__", &getOutputChannel<DataType>, py::return_value_policy::reference_internal, py::arg( "index" ) )
+    .def( "channel", &getOutputChannel<DataType>, py::arg( "index" ) )
+    .def( "__getitem__", &getOutputChannel<DataType>, py::arg( "index" ) )
     ;
 }
 
-- 
2.43.0


From 4e2359cc0ac31b01ef7d5a5df0b54b9f9e7cacfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:22 +0000
Subject: [PATCH 104/203] fix: keep components alive while Python iterates over
 their ports, children and connections

---
 src/python/visr/component.cpp           | 8 ++++----
 src/python/visr/composite_component.cpp | 6 +++---
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/python/visr/component.cpp b/src/python/visr/component.cpp
index cf1af07..7de8fe1 100644
--- a/src/python/visr/component.cpp
+++ b/src/python/visr/component.cpp
@@ -74,7 +74,7 @@ void exportComponent( pybind11::module& m )
     .def( "status", static_cast<void(Component::*)(::visr::StatusMessage::Kind, char const*)>(&Component::status), pybind11::arg("statusId"), pybind11::arg("message") )
       .def_property_readonly(
           "audioPorts",
-          []( Component & comp )
+          pybind11::cpp_function( []( Component & comp )
           {
             impl::ComponentImplementation::AudioPortContainer & portList =
                 comp.implementation().audioPorts();
@@ -82,11 +82,11 @@ void exportComponent( pybind11::module& m )
                 impl::ComponentImplementation::AudioPortContainer >;
             return pybind11::make_iterator( IterWrapper{ portList.begin() },
                                             IterWrapper{ portList.end() } );
-          },
+          }, pybind11::keep_alive<0, 1>() ),
           "Return an iterator over the audio ports of this component." )
       .def_property_readonly(
           "parameterPorts",
-          []( Component & comp )
+          pybind11::cpp_function( []( Component & comp )
           {
             impl::ComponentImplementation::ParameterPortContainer & portList =
                 comp.implementation().parameterPorts();
@@ -94,7 +94,7 @@ void exportComponent( pybind11::module& m )
                 impl::ComponentImplementation::ParameterPortContainer >;
             return pybind11::make_iterator( IterWrapper{ portList.begin() },
                                             IterWrapper{ portList.end() } );
-          },
+          }, pybind11::keep_alive<0, 1>() ),
           "Return an iterator over the parameter ports of this component." )
     ;
 }
diff --git a/src/python/visr/composite_component.cpp b/src/python/visr/composite_component.cpp
index 69b4925..577d71c 100644
--- a/src/python/visr/composite_component.cpp
+++ b/src/python/visr/composite_component.cpp
@@ -103,17 +103,17 @@ void exportCompositeComponent( pybind11::module& m )
        {
          impl::CompositeComponentImplementation & implCC = compositeComp->implementation();
          return pybind11::make_iterator( ComponentIterator{ implCC.componentBegin() }, ComponentIterator{ implCC.componentEnd() } );
-       }, "Return a Python iterator over the contained components at this level of hierarchy." )
+       }, pybind11::keep_alive<0, 1>(), "Return a Python iterator over the contained components at this level of hierarchy." )
     .def( "audioConnections", []( CompositeComponent * compositeComp )
     {
       impl::CompositeComponentImplementation & implCC = compositeComp->implementation();
       return pybind11::make_iterator( implCC.audioConnectionBegin(), implCC.audioConnectionEnd() );
-    }, "Return an iterator over all audio connections in the component" )
+    }, pybind11::keep_alive<0, 1>(), "Return an iterator over all audio connections in the component" )
     .def( "parameterConnections", []( CompositeComponent * compositeComp )
     {
       impl::CompositeComponentImplementation & implCC = compositeComp->implementation();
       return pybind11::make_iterator( implCC.parameterConnectionBegin(), implCC.parameterConnectionEnd() );
-    }, "Return an iterator over all parameter connections in the component." )
+    }, pybind11::keep_alive<0, 1>(), "Return an iterator over all parameter connections in the component." )
     ;
 }
 
-- 
2.43.0


From f8b401e1c23f0e84316306ff16a2b24764654aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:02 +0000
Subject: [PATCH 105/203] fix: components whose setup fails in Python do not
 remain in their parent

---
 src/python/rcl/delay_vector.cpp                         | 9 +++++----
 src/python/rcl/gain_matrix.cpp                          | 7 ++++---
 src/python/rcl/signal_routing.cpp                       | 6 ++++--
 src/python/reverbobject/reverb_parameter_calculator.cpp | 4 +++-
 4 files changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/python/rcl/delay_vector.cpp b/src/python/rcl/delay_vector.cpp
index 882f6fc..42fcd52 100644
--- a/src/python/rcl/delay_vector.cpp
+++ b/src/python/rcl/delay_vector.cpp
@@ -17,6 +17,7 @@
 
 #include <algorithm>
 #include <ciso646>
+#include <memory>
 #include <vector>
 
 namespace visr
@@ -82,7 +83,7 @@ void exportDelayVector( py::module & m )
           std::size_t numberOfChannels, std::size_t interpolationSteps, SampleType maxDelay, const char * interpolationMethod,
           DelayVector::MethodDelayPolicy methodDelayPolicy, DelayVector::ControlPortConfig controlInputs, SampleType initialDelay, SampleType initialGain)
       {
-        DelayVector * inst = new DelayVector( context, name, parent );
+        std::unique_ptr<DelayVector> inst( new DelayVector( context, name, parent ) );
         inst->setup( numberOfChannels, interpolationSteps, maxDelay, interpolationMethod,
                     methodDelayPolicy, controlInputs, initialDelay, initialGain );
         return inst;
@@ -101,7 +102,7 @@ void exportDelayVector( py::module & m )
         DelayVector::MethodDelayPolicy methodDelayPolicy, DelayVector::ControlPortConfig controlInputs, efl::BasicVector< SampleType > const & initialDelaysSeconds,
         efl::BasicVector< SampleType > const & initialGainsLinear )
       {
-        DelayVector * inst = new DelayVector( context, name, parent );
+        std::unique_ptr<DelayVector> inst( new DelayVector( context, name, parent ) );
         inst->setup( numberOfChannels, interpolationSteps, maxDelay, interpolationMethod,
           methodDelayPolicy, controlInputs, initialDelaysSeconds, initialGainsLinear );
         return inst;
@@ -125,7 +126,7 @@ void exportDelayVector( py::module & m )
           efl::BasicVector<SampleType> delays{ bindinghelpers::vectorFromNdArray<SampleType>(initialDelaysSeconds, alignment ) };
           efl::BasicVector<SampleType> gains{ bindinghelpers::vectorFromNdArray<SampleType>(initialGainsLinear, alignment ) };
 
-          DelayVector * inst = new DelayVector( context, name, parent );
+          std::unique_ptr<DelayVector> inst( new DelayVector( context, name, parent ) );
           inst->setup( numberOfChannels, interpolationSteps, maxDelay, interpolationMethod,
           methodDelayPolicy, controlInputs, delays, gains );
           return inst;
@@ -151,7 +152,7 @@ void exportDelayVector( py::module & m )
           fillBasicVector<SampleType>( delays, initialDelaysSeconds );
           fillBasicVector<SampleType>( gains, initialGainsLinear );
 
-          DelayVector * inst = new DelayVector( context, name, parent );
+          std::unique_ptr<DelayVector> inst( new DelayVector( context, name, parent ) );
           inst->setup( numberOfChannels, interpolationSteps, maxDelay, interpolationMethod,
           methodDelayPolicy, controlInputs, delays, gains );
           return inst;
diff --git a/src/python/rcl/gain_matrix.cpp b/src/python/rcl/gain_matrix.cpp
index 17b9660..023e853 100644
--- a/src/python/rcl/gain_matrix.cpp
+++ b/src/python/rcl/gain_matrix.cpp
@@ -13,6 +13,7 @@
 #include <pybind11/pybind11.h>
 
 #include <ciso646>
+#include <memory>
 #include <stdexcept>
 
 namespace visr
@@ -36,7 +37,7 @@ void exportGainMatrix( pybind11::module & m )
                           SampleType initialGain,
                           bool controlInput )
       {
-        GainMatrix * inst = new GainMatrix( context, name, parent );
+        std::unique_ptr<GainMatrix> inst( new GainMatrix( context, name, parent ) );
         inst->setup( numberOfInputs, numberOfOutputs, interpolationSteps, initialGain, controlInput );
         return inst;
       }),  py::arg("context"), py::arg("name"), py::arg("parent"), py::arg("numberOfInputs"),
@@ -50,7 +51,7 @@ void exportGainMatrix( pybind11::module & m )
                        efl::BasicMatrix< SampleType > const & initialGains,
                        bool controlInput )
        {
-         GainMatrix * inst = new GainMatrix( context, name, parent );
+         std::unique_ptr<GainMatrix> inst( new GainMatrix( context, name, parent ) );
          inst->setup( numberOfInputs, numberOfOutputs, interpolationSteps, initialGains, controlInput );
          return inst;
        }),  py::arg("context"), py::arg("name"), py::arg("parent"), py::arg("numberOfInputs"),
@@ -68,7 +69,7 @@ void exportGainMatrix( pybind11::module & m )
           {
             throw std::invalid_argument( "Size of the initial gains matrix does not match the expected shape" );
           }
-          GainMatrix * inst = new GainMatrix( context, name, parent );
+          std::unique_ptr<GainMatrix> inst( new GainMatrix( context, name, parent ) );
           inst->setup( numberOfInputs, numberOfOutputs, interpolationSteps, gains, controlInput );
           return inst;
         }),  py::arg("context"), py::arg("name"), py::arg("parent"), py::arg("numberOfInputs"),
diff --git a/src/python/rcl/signal_routing.cpp b/src/python/rcl/signal_routing.cpp
index 0115223..11077f4 100644
--- a/src/python/rcl/signal_routing.cpp
+++ b/src/python/rcl/signal_routing.cpp
@@ -10,6 +10,8 @@
 
 #include <pybind11/pybind11.h>
 
+#include <memory>
+
 namespace visr
 {
 namespace python
@@ -30,7 +32,7 @@ void exportSignalRouting( pybind11::module & m )
                         std::size_t outputWidth,
                         bool controlInput )
       {
-        SignalRouting * inst = new SignalRouting( context, name, parent );
+        std::unique_ptr<SignalRouting> inst( new SignalRouting( context, name, parent ) );
        inst->setup( inputWidth, outputWidth, controlInput );
        return inst;
       }),  py::arg("context"), py::arg("name"), py::arg("parent"),
@@ -43,7 +45,7 @@ void exportSignalRouting( pybind11::module & m )
                         pml::SignalRoutingParameter const & initialRouting,
                         bool controlInput )
       {
-        SignalRouting * inst = new SignalRouting( context, name, parent );
+        std::unique_ptr<SignalRouting> inst( new SignalRouting( context, name, parent ) );
         inst->setup( inputWidth, outputWidth, initialRouting, controlInput );
         return inst;
       }),  py::arg("context"), py::arg("name"), py::arg("parent"),
diff --git a/src/python/reverbobject/reverb_parameter_calculator.cpp b/src/python/reverbobject/reverb_parameter_calculator.cpp
index 66c8137..ecedf40 100644
--- a/src/python/reverbobject/reverb_parameter_calculator.cpp
+++ b/src/python/reverbobject/reverb_parameter_calculator.cpp
@@ -12,6 +12,8 @@
 
 #include <limits>
 
+#include <memory>
+
 namespace visr
 {
 namespace python
@@ -37,7 +39,7 @@ void exportReverbParameterCalculator( py::module& m )
           SampleType lateReflectionLengthSeconds,
           std::size_t numLateReflectionSubBandFilters )
       {
-        ReverbParameterCalculator * inst = new ReverbParameterCalculator( context, name, parent );
+        std::unique_ptr<ReverbParameterCalculator> inst( new ReverbParameterCalculator( context, name, parent ) );
         inst->setup( arrayConfig, numberOfObjects, numberOfDiscreteReflectionsPerSource,
                      numBiquadSectionsReflectionFilters, lateReflectionLengthSeconds, numLateReflectionSubBandFilters );
         return inst;
-- 
2.43.0


From 729b040814f44c257366b71dd7f2c89c7a0f3f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:02 +0000
Subject: [PATCH 106/203] fix: process arrays of any layout in Python

---
 src/python/rrl/audio_signal_flow.cpp       | 17 +++++++++++++----
 src/python/rrl/flexible_buffer_wrapper.cpp | 21 +++++++++++++++++----
 2 files changed, 30 insertions(+), 8 deletions(-)

diff --git a/src/python/rrl/audio_signal_flow.cpp b/src/python/rrl/audio_signal_flow.cpp
index 31d4b89..8645f61 100644
--- a/src/python/rrl/audio_signal_flow.cpp
+++ b/src/python/rrl/audio_signal_flow.cpp
@@ -12,6 +12,7 @@
 #include <pybind11/numpy.h>
 
 #include <ciso646>
+#include <cstdint>
 #include <vector>
 
 namespace visr
@@ -32,7 +33,7 @@ py::array_t<SampleType> wrapProcess( visr::rrl::AudioSignalFlow & flow, py::arra
 {
   using DataType = SampleType; // Possibly replace by a template parameter later.
 
-  if( not input.dtype().is( py::dtype::of<DataType>() ) )
+  if( not py::isinstance<py::array_t<DataType> >( input ) )
   {
     throw std::invalid_argument( "AudioSignalFlow::process(): The data type input matrix does not match the used sample data type." );
   }
@@ -49,6 +50,14 @@ py::array_t<SampleType> wrapProcess( visr::rrl::AudioSignalFlow & flow, py::arra
     throw std::invalid_argument( "AudioSignalFlow::process(): Dimension 0 input of the input matrix does not match the block size of the signal flow." );
   }
 
+  // The strides of the input are passed in samples. Arrays whose elements are not placed at a multiple of the sample size
+  // (e.g., the fields of a structured array) are copied.
+  bool const stridesAdmissible = (input.strides(0) % static_cast<py::ssize_t>(sizeof(DataType)) == 0)
+    and (input.strides(1) % static_cast<py::ssize_t>(sizeof(DataType)) == 0)
+    and (reinterpret_cast<std::uintptr_t>(input.data()) % alignof(DataType) == 0);
+  py::array const inputSignal( stridesAdmissible ? input
+    : py::array( py::array_t<DataType, py::array::c_style | py::array::forcecast>::ensure( input ) ) );
+
   py::array outputSignal( py::dtype::of<SampleType>(),
   { flow.numberOfPlaybackChannels(), flow.period() },
   { sizeof( SampleType )*flow.period(), sizeof( SampleType ) } // TODO: Take care of alignment
@@ -58,9 +67,9 @@ py::array_t<SampleType> wrapProcess( visr::rrl::AudioSignalFlow & flow, py::arra
 
   try
   {
-    flow.process( static_cast<SampleType const *>(input.data()),
-                  input.strides(0)/sizeof(SampleType),
-                  input.strides(1)/sizeof(SampleType),
+    flow.process( static_cast<SampleType const *>(inputSignal.data()),
+                  inputSignal.strides(0)/static_cast<py::ssize_t>(sizeof(SampleType)),
+                  inputSignal.strides(1)/static_cast<py::ssize_t>(sizeof(SampleType)),
                   static_cast<SampleType *>(outputSignal.mutable_data()),
                   outChannelStride,
                   outSampleStride );
diff --git a/src/python/rrl/flexible_buffer_wrapper.cpp b/src/python/rrl/flexible_buffer_wrapper.cpp
index a224c3b..676b6db 100644
--- a/src/python/rrl/flexible_buffer_wrapper.cpp
+++ b/src/python/rrl/flexible_buffer_wrapper.cpp
@@ -9,6 +9,7 @@
 #include <pybind11/numpy.h>
 
 #include <ciso646>
+#include <cstdint>
 #include <vector>
 
 namespace visr
@@ -40,7 +41,7 @@ py::array_t< SampleType > FlexibleBufferWrapper::process(
   using DataType =
       SampleType; // Possibly replace by a template parameter later.
 
-  if( not input.dtype().is( py::dtype::of< DataType >() ) )
+  if( not py::isinstance< py::array_t< DataType > >( input ) )
   {
     throw std::invalid_argument(
         "FlexibleBufferWrapper::process(): The data type input matrix does not "
@@ -60,6 +61,18 @@ py::array_t< SampleType > FlexibleBufferWrapper::process(
   }
   std::size_t const numFrames = static_cast< std::size_t >( input.shape( 1 ) );
 
+  // The strides of the input are passed in samples. Arrays whose elements are
+  // not placed at a multiple of the sample size (e.g., the fields of a
+  // structured array) are copied.
+  bool const stridesAdmissible =
+      ( input.strides( 0 ) % static_cast< py::ssize_t >( sizeof( DataType ) ) == 0 )
+      and ( input.strides( 1 ) % static_cast< py::ssize_t >( sizeof( DataType ) ) == 0 )
+      and ( reinterpret_cast< std::uintptr_t >( input.data() ) % alignof( DataType ) == 0 );
+  py::array const inputSignal( stridesAdmissible
+      ? input
+      : py::array( py::array_t< DataType, py::array::c_style
+          | py::array::forcecast >::ensure( input ) ) );
+
   py::array outputSignal(
       py::dtype::of< SampleType >(),
       { mFlow.numberOfPlaybackChannels(), numFrames },
@@ -74,9 +87,9 @@ py::array_t< SampleType > FlexibleBufferWrapper::process(
   try
   {
     visr::rrl::FlexibleBufferWrapper::process(
-        static_cast< SampleType const * >( input.data() ),
-        input.strides( 0 ) / sizeof( SampleType ),
-        input.strides( 1 ) / sizeof( SampleType ),
+        static_cast< SampleType const * >( inputSignal.data() ),
+        inputSignal.strides( 0 ) / static_cast< py::ssize_t >( sizeof( SampleType ) ),
+        inputSignal.strides( 1 ) / static_cast< py::ssize_t >( sizeof( SampleType ) ),
         static_cast< SampleType * >( outputSignal.mutable_data() ),
         outChannelStride, outSampleStride,
         numFrames );
-- 
2.43.0


From 2f4ba00a714ea96e9133547a23dce1a6d135025e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:02 +0000
Subject: [PATCH 107/203] fix: keep signal flows and components alive while
 Python refers to their parts

---
 src/python/rrl/audio_signal_flow.cpp       | 14 +++++++-------
 src/python/rrl/flexible_buffer_wrapper.cpp |  2 +-
 src/python/visr/component.cpp              |  2 +-
 3 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/python/rrl/audio_signal_flow.cpp b/src/python/rrl/audio_signal_flow.cpp
index 8645f61..067b05a 100644
--- a/src/python/rrl/audio_signal_flow.cpp
+++ b/src/python/rrl/audio_signal_flow.cpp
@@ -141,8 +141,8 @@ R"(Python binding for the mutex type used by AudioSignalFlow to guard the exchan
 
   py::class_< ParameterExchangeMutexGuard >( cls, "ParameterExchangeMutexGuard",
 R"( Context manager to acquire the parameter exchange critical section lock with the Python "with" statement.)")
-    .def( py::init< ParameterExchangeMutex & >(), R"( Construct the context manager from the parameter exchange critical section mutex.)" )
-    .def( py::init< AudioSignalFlow & >(), R"(Convenience constructor the context manager directly from the AudioSignalFlow.)" )
+    .def( py::init< ParameterExchangeMutex & >(), py::keep_alive<1, 2>(), R"( Construct the context manager from the parameter exchange critical section mutex.)" )
+    .def( py::init< AudioSignalFlow & >(), py::keep_alive<1, 2>(), R"(Convenience constructor the context manager directly from the AudioSignalFlow.)" )
     .def( "__enter__", &ParameterExchangeMutexGuard::enter, py::return_value_policy::reference,
 R"(Implement the "__enter__" method of the ContextManager API. Called within the with statment, usually not called directly by users.)" )
     .def( "__exit__", &ParameterExchangeMutexGuard::exit,
@@ -157,9 +157,9 @@ R"(Implement the "__exit__" method of the ContextManager API. Called within the
    .def_property_readonly( "numberOfPlaybackChannels", &AudioSignalFlow::numberOfPlaybackChannels )
    .def_property_readonly( "numberParameterReceivePorts", &AudioSignalFlow::numberExternalParameterReceivePorts )
    .def_property_readonly( "numberParameterSendPorts", &AudioSignalFlow::numberExternalParameterSendPorts )
-   .def( "parameterReceivePort", &AudioSignalFlow::externalParameterReceivePort, py::arg("portName"), py::return_value_policy::reference )
-   .def( "parameterSendPort", &AudioSignalFlow::externalParameterSendPort, py::arg("portName"), py::return_value_policy::reference )
-   .def( "parameterReceivePorts", &AudioSignalFlow::externalParameterReceiveEndpoints, py::return_value_policy::reference )
+   .def( "parameterReceivePort", &AudioSignalFlow::externalParameterReceivePort, py::arg("portName"), py::return_value_policy::reference_internal )
+   .def( "parameterSendPort", &AudioSignalFlow::externalParameterSendPort, py::arg("portName"), py::return_value_policy::reference_internal )
+   .def( "parameterReceivePorts", &AudioSignalFlow::externalParameterReceiveEndpoints, py::return_value_policy::reference_internal )
    .def( "parameterSendPorts", &AudioSignalFlow::externalParameterSendEndpoints )
    .def( "audioCapturePortName", &AudioSignalFlow::audioCapturePortName, py::arg("index"), py::return_value_policy::reference )
    .def( "audioPlaybackPortName", &AudioSignalFlow::audioPlaybackPortName, py::arg( "index" ), py::return_value_policy::reference )
@@ -181,13 +181,13 @@ R"(Implement the "__exit__" method of the ContextManager API. Called within the
      },
      py::return_value_policy::take_ownership, "process() variant for flows with no audio inputs." )
    .def( "parameterExchangeMutex", &AudioSignalFlow::parameterExchangeMutex,
-     py::return_value_policy::reference, R"(Obtain the mutex for guarding the parameter data exchange,)" )
+     py::return_value_policy::reference_internal, R"(Obtain the mutex for guarding the parameter data exchange,)" )
 #ifdef VISR_RRL_RUNTIME_SYSTEM_PROFILING
    .def( "runtimeProfilingEnabled", &AudioSignalFlow::runtimeProfilingEnabled )
    .def( "enableRuntimeProfiling", &AudioSignalFlow::enableRuntimeProfiling, py::arg( "measurementBufferSize" ) )
    .def( "disableRuntimeProfiling", &AudioSignalFlow::disableRuntimeProfiling )
    .def( "runtimeProfiler", static_cast< visr::rrl::RuntimeProfiler &(AudioSignalFlow::*)()>(
-      &AudioSignalFlow::runtimeProfiler ), py::return_value_policy::reference )
+      &AudioSignalFlow::runtimeProfiler ), py::return_value_policy::reference_internal )
 #endif
   ;
 }
diff --git a/src/python/rrl/flexible_buffer_wrapper.cpp b/src/python/rrl/flexible_buffer_wrapper.cpp
index 676b6db..d33c37d 100644
--- a/src/python/rrl/flexible_buffer_wrapper.cpp
+++ b/src/python/rrl/flexible_buffer_wrapper.cpp
@@ -109,7 +109,7 @@ py::array_t< SampleType > FlexibleBufferWrapper::process(
 void exportFlexibleBufferWrapper( py::module &m )
 {
   py::class_< FlexibleBufferWrapper >( m, "FlexibleBufferWrapper" )
-      .def( py::init< visr::rrl::AudioSignalFlow & >(), py::arg( "flow" ) )
+      .def( py::init< visr::rrl::AudioSignalFlow & >(), py::keep_alive< 1, 2 >(), py::arg( "flow" ) )
       .def("process", &FlexibleBufferWrapper::process,
           py::arg( "input" ),
           py::return_value_policy::take_ownership )
diff --git a/src/python/visr/component.cpp b/src/python/visr/component.cpp
index 7de8fe1..6c6b853 100644
--- a/src/python/visr/component.cpp
+++ b/src/python/visr/component.cpp
@@ -67,7 +67,7 @@ void exportComponent( pybind11::module& m )
     .def( "isComposite", &Component::isComposite )
     .def( "samplingFrequency", &Component::samplingFrequency ) 
     .def( "period", &Component::period )
-    .def( "time", &Component::time, pybind11::return_value_policy::reference )
+    .def( "time", &Component::time, pybind11::return_value_policy::reference_internal )
     .def( "isTopLevel", &Component::isTopLevel )
     .def( "audioPort", static_cast<AudioPortBase&(Component::*)(std::string const &)>(&Component::audioPort), pybind11::arg("portName"), "Return an audio port object by name", pybind11::return_value_policy::reference )
     .def( "parameterPort", static_cast<ParameterPortBase&(Component::*)(std::string const &)>(&Component::parameterPort), pybind11::arg( "portName" ), "Return a parameter port object by name", pybind11::return_value_policy::reference )
-- 
2.43.0


From 74bc1a3d9a0160c507855f5c5845898e39a124e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:03 +0000
Subject: [PATCH 108/203] fix: full names of ports in Python contain the
 hierarchy of components

---
 src/python/visr/audio_port.cpp     | 2 +-
 src/python/visr/parameter_port.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/python/visr/audio_port.cpp b/src/python/visr/audio_port.cpp
index b23db93..dd4befe 100644
--- a/src/python/visr/audio_port.cpp
+++ b/src/python/visr/audio_port.cpp
@@ -167,7 +167,7 @@ void exportAudioPort( py::module & m)
     .def_property_readonly( "name", []( AudioPortBase const & port ) { return port.implementation().name(); } )
     .def_property_readonly( "qualifiedName", []( AudioPortBase const & port ) { return port.implementation().parent().name()
       + ":" +port.implementation().name(); }, "Return the port name as a component:port combination" )
-    .def_property_readonly( "fullName", []( AudioPortBase const & port ) { return port.implementation().parent().name()
+    .def_property_readonly( "fullName", []( AudioPortBase const & port ) { return port.implementation().parent().fullName()
     + ":" +port.implementation().name(); }, "Return the port name as a component:port combination with a fully hierarchical component name." )
     .def_property_readonly( "direction", []( AudioPortBase const & port ) { return port.implementation().direction(); } )
     ;
diff --git a/src/python/visr/parameter_port.cpp b/src/python/visr/parameter_port.cpp
index 5359e97..56f412e 100644
--- a/src/python/visr/parameter_port.cpp
+++ b/src/python/visr/parameter_port.cpp
@@ -37,7 +37,7 @@ void exportParameterPort( pybind11::module & m)
     .def_property_readonly( "name", []( ParameterPortBase const & port ) { return port.implementation().name(); } )
     .def_property_readonly( "qualifiedName", []( ParameterPortBase const & port ) { return port.implementation().parent().name()
       + ":" +port.implementation().name(); }, "Return the port name as a component:port combination" )
-    .def_property_readonly( "fullName", []( ParameterPortBase const & port ) { return port.implementation().parent().name()
+    .def_property_readonly( "fullName", []( ParameterPortBase const & port ) { return port.implementation().parent().fullName()
       + ":" +port.implementation().name(); }, "Return the port name as a component:port combination with a fully hierarchical component name." )
     .def_property_readonly( "direction", []( ParameterPortBase const & port ) { return port.implementation().direction(); } )
 //    .def( "hasParameterConfig", &ParameterPortBase::hasParameterConfig)
-- 
2.43.0


From f90a6d4fc5da30897f00a2b7fff5db8769fdcf68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:15 +0000
Subject: [PATCH 109/203] fix: refuse messages whose type does not match the
 message queue

---
 src/libpml/message_queue_protocol.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/libpml/message_queue_protocol.cpp b/src/libpml/message_queue_protocol.cpp
index f67a011..20470d9 100644
--- a/src/libpml/message_queue_protocol.cpp
+++ b/src/libpml/message_queue_protocol.cpp
@@ -45,6 +45,10 @@ std::size_t MessageQueueProtocol::numberOfElements() const
 
 void MessageQueueProtocol::enqueue( std::unique_ptr<ParameterBase>& val )
 {
+  if( (not val) or (val->type() != mParameterType) )
+  {
+    throw std::invalid_argument( "MessageQueueProtocol::enqueue(): The parameter type does not match that of the protocol." );
+  }
   mQueue.push_front( std::move( val ) );
 }
 
-- 
2.43.0


From 138af500a59d53791aa1a22d5f57a7a2a435b5d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:15 +0000
Subject: [PATCH 110/203] fix: messages obtained in Python remain valid after
 they are removed from the queue

---
 src/python/pml/message_queue_protocol.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/python/pml/message_queue_protocol.cpp b/src/python/pml/message_queue_protocol.cpp
index 3f29b36..f06273a 100644
--- a/src/python/pml/message_queue_protocol.cpp
+++ b/src/python/pml/message_queue_protocol.cpp
@@ -31,7 +31,9 @@ void exportMessageQueueProtocol( pybind11::module & m)
     .def( pybind11::init<>() )
     .def( "empty", &MessageQueueProtocol::InputBase::empty, "Query whether the queue is empty." )
     .def( "size", &MessageQueueProtocol::InputBase::size, "Return the number of elements in the queue" )
-    .def( "front", &MessageQueueProtocol::InputBase::front, pybind11::return_value_policy::reference, "Return a reference to the next element in the queue, throw an exception if the queue is empty." )
+    .def( "front", []( MessageQueueProtocol::InputBase const & self ){ return self.front().clone(); },
+      // A copy is returned because the element may be removed from the queue while the Python variable still exists.
+      "Return (a copy of) the next element in the queue, throw an exception if the queue is empty." )
     .def( "pop", &MessageQueueProtocol::InputBase::pop, "Clear the front-most element from the queue. If the queue is empty, an exception is thrown." )
     .def( "clear", &MessageQueueProtocol::InputBase::clear, "Clear all elements from the queue" )
     ;
-- 
2.43.0


From 2a25039431cc2fe757fc2f2ef7e9c1098c657354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:04 +0000
Subject: [PATCH 111/203] fix: report unconnected parameter ports in Python
 instead of crashing

---
 src/python/pml/connected_port.hpp            | 33 ++++++++++++++++++++
 src/python/pml/double_buffering_protocol.cpp | 10 +++---
 src/python/pml/message_queue_protocol.cpp    | 18 ++++++-----
 src/python/pml/shared_data_protocol.cpp      |  6 ++--
 4 files changed, 53 insertions(+), 14 deletions(-)
 create mode 100644 src/python/pml/connected_port.hpp

diff --git a/src/python/pml/connected_port.hpp b/src/python/pml/connected_port.hpp
new file mode 100644
index 0000000..983cdef
--- /dev/null
+++ b/src/python/pml/connected_port.hpp
@@ -0,0 +1,33 @@
+/* Copyright Institute of Sound and Vibration Research - All rights reserved */
+
+#ifndef VISR_PYTHON_PML_CONNECTED_PORT_HPP_INCLUDED
+#define VISR_PYTHON_PML_CONNECTED_PORT_HPP_INCLUDED
+
+#include <stdexcept>
+
+namespace visr
+{
+namespace python
+{
+namespace pml
+{
+
+/**
+ * Access the protocol endpoint of a parameter port, ensuring that it is connected, i.e., that it belongs to a signal flow.
+ * @throw std::logic_error If the endpoint is not connected.
+ */
+template< class ProtocolEndpoint >
+ProtocolEndpoint & connectedPort( ProtocolEndpoint & endpoint )
+{
+  if( endpoint.getProtocol() == nullptr )
+  {
+    throw std::logic_error( "The parameter port is not connected." );
+  }
+  return endpoint;
+}
+
+} // namespace pml
+} // namespace python
+} // namespace visr
+
+#endif // #ifndef VISR_PYTHON_PML_CONNECTED_PORT_HPP_INCLUDED
diff --git a/src/python/pml/double_buffering_protocol.cpp b/src/python/pml/double_buffering_protocol.cpp
index 3b9d922..ee02726 100644
--- a/src/python/pml/double_buffering_protocol.cpp
+++ b/src/python/pml/double_buffering_protocol.cpp
@@ -1,5 +1,7 @@
 /* Copyright Institute of Sound and Vibration Research - All rights reserved */
 
+#include "connected_port.hpp"
+
 #include <libpml/double_buffering_protocol.hpp>
 
 #include <libvisr/communication_protocol_base.hpp>
@@ -29,24 +31,24 @@ void exportDoubleBufferingProtocol( pybind11::module & m)
 
   pybind11::class_<DoubleBufferingProtocol::InputBase, CommunicationProtocolBase::Input>( doubleBuffering, "InputBase" )
     .def( pybind11::init<>() )
-    .def( "data", &DoubleBufferingProtocol::InputBase::data, pybind11::return_value_policy::reference )
+    .def( "data", []( DoubleBufferingProtocol::InputBase & self ) -> ParameterBase const & { return connectedPort( self ).data(); }, pybind11::return_value_policy::reference )
     .def( "changed", &DoubleBufferingProtocol::InputBase::changed )
     .def( "resetChanged", &DoubleBufferingProtocol::InputBase::resetChanged )
     ;
 
   pybind11::class_<DoubleBufferingProtocol::OutputBase, CommunicationProtocolBase::Output>( doubleBuffering, "OutputBase" )
     .def( pybind11::init<>() )
-    .def( "data", &DoubleBufferingProtocol::OutputBase::data, pybind11::return_value_policy::reference )
+    .def( "data", []( DoubleBufferingProtocol::OutputBase & self ) -> ParameterBase & { return connectedPort( self ).data(); }, pybind11::return_value_policy::reference )
     .def( "set",
     []( DoubleBufferingProtocol::OutputBase & self, visr::ParameterBase const & data, bool swapBuffers )
     {
-      self.data().assign( data );
+      connectedPort( self ).data().assign( data );
       if( swapBuffers )
       {
         self.swapBuffers();
       }
     }, pybind11::arg( "value" ), pybind11::arg( "swapBuffers") = false )
-    .def( "swapBuffers", &DoubleBufferingProtocol::OutputBase::swapBuffers, pybind11::arg( "copyValue") = false )
+    .def( "swapBuffers", []( DoubleBufferingProtocol::OutputBase & self, bool copyValue ){ connectedPort( self ).swapBuffers( copyValue ); }, pybind11::arg( "copyValue") = false )
     ;
 
 }
diff --git a/src/python/pml/message_queue_protocol.cpp b/src/python/pml/message_queue_protocol.cpp
index f06273a..0e8769c 100644
--- a/src/python/pml/message_queue_protocol.cpp
+++ b/src/python/pml/message_queue_protocol.cpp
@@ -1,5 +1,7 @@
 /* Copyright Institute of Sound and Vibration Research - All rights reserved */
 
+#include "connected_port.hpp"
+
 #include <libpml/message_queue_protocol.hpp>
 
 #include <libvisr/communication_protocol_base.hpp>
@@ -29,20 +31,20 @@ void exportMessageQueueProtocol( pybind11::module & m)
 
   pybind11::class_<MessageQueueProtocol::InputBase, CommunicationProtocolBase::Input>( messagequeue, "InputBase" )
     .def( pybind11::init<>() )
-    .def( "empty", &MessageQueueProtocol::InputBase::empty, "Query whether the queue is empty." )
-    .def( "size", &MessageQueueProtocol::InputBase::size, "Return the number of elements in the queue" )
-    .def( "front", []( MessageQueueProtocol::InputBase const & self ){ return self.front().clone(); },
+    .def( "empty", []( MessageQueueProtocol::InputBase & self ) { return connectedPort( self ).empty(); }, "Query whether the queue is empty." )
+    .def( "size", []( MessageQueueProtocol::InputBase & self ) { return connectedPort( self ).size(); }, "Return the number of elements in the queue" )
+    .def( "front", []( MessageQueueProtocol::InputBase & self ){ return connectedPort( self ).front().clone(); },
       // A copy is returned because the element may be removed from the queue while the Python variable still exists.
       "Return (a copy of) the next element in the queue, throw an exception if the queue is empty." )
-    .def( "pop", &MessageQueueProtocol::InputBase::pop, "Clear the front-most element from the queue. If the queue is empty, an exception is thrown." )
-    .def( "clear", &MessageQueueProtocol::InputBase::clear, "Clear all elements from the queue" )
+    .def( "pop", []( MessageQueueProtocol::InputBase & self ) { return connectedPort( self ).pop(); }, "Clear the front-most element from the queue. If the queue is empty, an exception is thrown." )
+    .def( "clear", []( MessageQueueProtocol::InputBase & self ) { return connectedPort( self ).clear(); }, "Clear all elements from the queue" )
     ;
 
   pybind11::class_<MessageQueueProtocol::OutputBase, CommunicationProtocolBase::Output>( messagequeue, "OutputBase" )
     .def( pybind11::init<>() )
-    .def( "empty", &MessageQueueProtocol::OutputBase::empty, "Query whether the queue is empty." )
-    .def( "size", &MessageQueueProtocol::OutputBase::size, "Return the number of elements in the queue" )
-    .def( "enqueue", [](MessageQueueProtocol::OutputBase& self, const ParameterBase & param ){ self.enqueue(param.clone()); }, "Place the element the back of the queue" )
+    .def( "empty", []( MessageQueueProtocol::OutputBase & self ) { return connectedPort( self ).empty(); }, "Query whether the queue is empty." )
+    .def( "size", []( MessageQueueProtocol::OutputBase & self ) { return connectedPort( self ).size(); }, "Return the number of elements in the queue" )
+    .def( "enqueue", [](MessageQueueProtocol::OutputBase& self, const ParameterBase & param ){ connectedPort( self ).enqueue( param.clone() ); }, "Place the element the back of the queue" )
     ;
 }
 
diff --git a/src/python/pml/shared_data_protocol.cpp b/src/python/pml/shared_data_protocol.cpp
index b72b0a1..cf5ec94 100644
--- a/src/python/pml/shared_data_protocol.cpp
+++ b/src/python/pml/shared_data_protocol.cpp
@@ -1,5 +1,7 @@
 /* Copyright Institute of Sound and Vibration Research - All rights reserved */
 
+#include "connected_port.hpp"
+
 #include <libpml/shared_data_protocol.hpp>
 
 #include <libvisr/communication_protocol_base.hpp>
@@ -29,12 +31,12 @@ void exportSharedDataProtocol( pybind11::module & m)
 
   pybind11::class_<SharedDataProtocol::InputBase, CommunicationProtocolBase::Input>( doubleBuffering, "InputBase" )
     .def( pybind11::init<>() )
-    .def( "data", &SharedDataProtocol::InputBase::data, pybind11::return_value_policy::reference )
+    .def( "data", []( SharedDataProtocol::InputBase & self ) -> ParameterBase const & { return connectedPort( self ).data(); }, pybind11::return_value_policy::reference )
     ;
 
   pybind11::class_<SharedDataProtocol::OutputBase, CommunicationProtocolBase::Output>( doubleBuffering, "OutputBase" )
     .def( pybind11::init<>() )
-    .def( "data", &SharedDataProtocol::OutputBase::data, pybind11::return_value_policy::reference )
+    .def( "data", []( SharedDataProtocol::OutputBase & self ) -> ParameterBase & { return connectedPort( self ).data(); }, pybind11::return_value_policy::reference )
     ;
 
 }
-- 
2.43.0


From 564dfec9086bc59fa4c38ae4f7bc7ea3795733ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:04 +0000
Subject: [PATCH 112/203] fix: Python does not own the protocol of a port

---
 src/python/visr/communication_protocol.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/python/visr/communication_protocol.cpp b/src/python/visr/communication_protocol.cpp
index 0e5015e..4f45ade 100644
--- a/src/python/visr/communication_protocol.cpp
+++ b/src/python/visr/communication_protocol.cpp
@@ -46,13 +46,13 @@ void exportCommunicationProtocol( pybind11::module & m)
 
   pybind11::class_<CommunicationProtocolBase::Input>( commProtocolBase, "Input" )
     .def( "getProtocol", static_cast<CommunicationProtocolBase*(CommunicationProtocolBase::Input::*)()>(
-      &CommunicationProtocolBase::Input::getProtocol) )
+      &CommunicationProtocolBase::Input::getProtocol), pybind11::return_value_policy::reference )
     .def( "setProtocolInstance", &CommunicationProtocolBase::Input::setProtocolInstance )
     ;
 
   pybind11::class_<CommunicationProtocolBase::Output>( commProtocolBase, "Output" )
     .def( "getProtocol", static_cast<CommunicationProtocolBase*(CommunicationProtocolBase::Output::*)()>(
-      &CommunicationProtocolBase::Output::getProtocol) )
+      &CommunicationProtocolBase::Output::getProtocol), pybind11::return_value_policy::reference )
     .def( "setProtocolInstance", &CommunicationProtocolBase::Output::setProtocolInstance )
 
   ;
-- 
2.43.0


From 6ac14213c571618b572d2388a58afa10f8a0c870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:25 +0000
Subject: [PATCH 113/203] fix: audio ports without channels have the block size
 in Python

---
 src/python/visr/audio_port.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/python/visr/audio_port.cpp b/src/python/visr/audio_port.cpp
index dd4befe..254ab11 100644
--- a/src/python/visr/audio_port.cpp
+++ b/src/python/visr/audio_port.cpp
@@ -39,7 +39,8 @@ namespace // unnamed
 std::size_t numberOfSamples( AudioPortBase const & port )
 {
   auto const & impl = port.implementation();
-  return (impl.initialised() and impl.hasParent()) ? impl.parent().period() : 0;
+  // Ports without channels do not have a buffer.
+  return ((impl.initialised() or port.width() == 0) and impl.hasParent()) ? impl.parent().period() : 0;
 }
 
 /**
-- 
2.43.0


From 9cdba8820359d4920d84d31391dcb87e7f6255cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:10 +0000
Subject: [PATCH 114/203] fix: route channels of complex audio signals

---
 src/librrl/signal_routing_internal.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/librrl/signal_routing_internal.cpp b/src/librrl/signal_routing_internal.cpp
index a8954f3..95a54f3 100644
--- a/src/librrl/signal_routing_internal.cpp
+++ b/src/librrl/signal_routing_internal.cpp
@@ -5,6 +5,7 @@
 #include <libefl/vector_functions.hpp>
 
 #include <algorithm>
+#include <complex>
 #include <cstdint>
 #include <stdexcept>
 
@@ -88,6 +89,8 @@ std::unique_ptr<AtomicComponent> createSignalRoutingComponent( AudioSampleType::
   case AudioSampleType::int16Id: return std::unique_ptr<AtomicComponent>( new SignalRoutingInternal<int16_t>( context, name, parent, inputWidth, signalIndices ) );
   case AudioSampleType::uint32Id: return std::unique_ptr<AtomicComponent>( new SignalRoutingInternal<uint32_t>( context, name, parent, inputWidth, signalIndices ) );
   case AudioSampleType::int32Id: return std::unique_ptr<AtomicComponent>( new SignalRoutingInternal<int32_t>( context, name, parent, inputWidth, signalIndices ) );
+  case AudioSampleType::complexFloatId: return std::unique_ptr<AtomicComponent>( new SignalRoutingInternal<std::complex<float> >( context, name, parent, inputWidth, signalIndices ) );
+  case AudioSampleType::complexDoubleId: return std::unique_ptr<AtomicComponent>( new SignalRoutingInternal<std::complex<double> >( context, name, parent, inputWidth, signalIndices ) );
   default: throw std::invalid_argument( "createSignalRoutingComponent(): Sample type not supported.");
   }
 }
-- 
2.43.0


From 1fecc46cf32cfe6c3da71b17bd1c3b060447fe8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:55 +0000
Subject: [PATCH 115/203] fix: accept arrays with equal data types in Python

---
 src/python/efl/basic_matrix.cpp                            | 2 +-
 src/python/libpythonbindinghelpers/matrix_from_ndarray.hpp | 2 +-
 src/python/libpythonbindinghelpers/vector_from_ndarray.hpp | 2 +-
 src/python/panningdsp/panning_matrix_parameter.cpp         | 2 +-
 src/python/pml/indexed_value_parameter.cpp                 | 2 +-
 src/python/pml/matrix_parameter.cpp                        | 2 +-
 src/python/rbbl/crossfading_convolver_uniform.cpp          | 2 +-
 src/python/rbbl/interpolating_convolver_uniform.cpp        | 2 +-
 src/python/rbbl/multichannel_convolver_uniform.cpp         | 2 +-
 src/python/rcl/crossfading_fir_filter_matrix.cpp           | 2 +-
 src/python/rcl/fir_filter_matrix.cpp                       | 2 +-
 src/python/rcl/interpolating_fir_filter_matrix.cpp         | 2 +-
 src/python/visr/audio_sample_type.cpp                      | 2 +-
 13 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/python/efl/basic_matrix.cpp b/src/python/efl/basic_matrix.cpp
index 8ff86a2..e2a5e44 100644
--- a/src/python/efl/basic_matrix.cpp
+++ b/src/python/efl/basic_matrix.cpp
@@ -37,7 +37,7 @@ void exportBasicMatrix( pybind11::module & m, char const * className )
     {
       throw std::invalid_argument( "efl::BasicMatrix from numpy ndarray: Input array must be 2D" );
     }
-    if( not data.dtype().is( pybind11::dtype::of<DataType>() ) )
+    if( not pybind11::isinstance<pybind11::array_t<DataType> >( data ) )
     {
       throw std::invalid_argument( "efl::BasicMatrix from numpy ndarray: Input matrix has a different data type (dtype)." );
     }
diff --git a/src/python/libpythonbindinghelpers/matrix_from_ndarray.hpp b/src/python/libpythonbindinghelpers/matrix_from_ndarray.hpp
index bc7d7d3..a9e80f9 100644
--- a/src/python/libpythonbindinghelpers/matrix_from_ndarray.hpp
+++ b/src/python/libpythonbindinghelpers/matrix_from_ndarray.hpp
@@ -28,7 +28,7 @@ efl::BasicMatrix<DataType> matrixFromNdArray( pybind11::array_t<DataType> const
     throw std::invalid_argument( "efl::BasicMatrix from numpy ndarray: Input array must be 2D" );
   }
   // Should not happen, because we use the typed array_t template type.
-  if( not array.dtype().is( pybind11::dtype::of<DataType>() ) )
+  if( not pybind11::isinstance<pybind11::array_t<DataType> >( array ) )
   {
     throw std::invalid_argument( "efl::BasicMatrix from numpy ndarray: Input matrix has a different data type (dtype)." );
   }
diff --git a/src/python/libpythonbindinghelpers/vector_from_ndarray.hpp b/src/python/libpythonbindinghelpers/vector_from_ndarray.hpp
index ab91ac6..6cca311 100644
--- a/src/python/libpythonbindinghelpers/vector_from_ndarray.hpp
+++ b/src/python/libpythonbindinghelpers/vector_from_ndarray.hpp
@@ -30,7 +30,7 @@ efl::BasicVector<DataType> vectorFromNdArray( pybind11::array_t<DataType> const
     throw std::invalid_argument( "efl::BasicVector from numpy ndarray: Input array must be 1D" );
   }
   // Should not happen, because we use the typed array_t template type.
-  if( not array.dtype().is( pybind11::dtype::of<DataType>() ) )
+  if( not pybind11::isinstance<pybind11::array_t<DataType> >( array ) )
   {
     throw std::invalid_argument( "efl::BasicVector from numpy ndarray: Input matrix has a different data type (dtype)." );
   }
diff --git a/src/python/panningdsp/panning_matrix_parameter.cpp b/src/python/panningdsp/panning_matrix_parameter.cpp
index d620675..41f4932 100644
--- a/src/python/panningdsp/panning_matrix_parameter.cpp
+++ b/src/python/panningdsp/panning_matrix_parameter.cpp
@@ -38,7 +38,7 @@ efl::AlignedArray< T > arrayFromNdArray(py::array_t< T > const & array, std::siz
     throw std::invalid_argument("efl::BasicVector from numpy ndarray: Input array must be 1D");
   }
   // Should not happen, because we use the typed array_t template type.
-  if (not array.dtype().is(pybind11::dtype::of<T>()))
+  if (not pybind11::isinstance<pybind11::array_t<T> >(array))
   {
     throw std::invalid_argument("efl::BasicVector from numpy ndarray: Input matrix has a different data type (dtype).");
   }
diff --git a/src/python/pml/indexed_value_parameter.cpp b/src/python/pml/indexed_value_parameter.cpp
index 5d95195..4edfdab 100644
--- a/src/python/pml/indexed_value_parameter.cpp
+++ b/src/python/pml/indexed_value_parameter.cpp
@@ -47,7 +47,7 @@ void exportIndexVectorParameter( pybind11::module & m, char const * className )
 	  	  	{
 	  	  	  throw std::invalid_argument( "IndexedVectorParameter from numpy ndarray: Input array must be 1D" );
 	  	  	}
-	  	  	if( not data.dtype().is( pybind11::dtype::of<ElementType>() ) )
+	  	  	if( not pybind11::isinstance<pybind11::array_t<ElementType> >( data ) )
 	  	  	{
 	  	  	  throw std::invalid_argument( "IndexedVectorParameter from numpy ndarray: Input matrix has a different data type (dtype)." );
 	  	  	}
diff --git a/src/python/pml/matrix_parameter.cpp b/src/python/pml/matrix_parameter.cpp
index a16e52e..5483f05 100644
--- a/src/python/pml/matrix_parameter.cpp
+++ b/src/python/pml/matrix_parameter.cpp
@@ -48,7 +48,7 @@ void exportMatrixParameter( pybind11::module & m, char const * className )
     {
       throw std::invalid_argument( "MatrixParameter from numpy ndarray: Input array must be 2D" );
     }
-    if( not data.dtype().is( pybind11::dtype::of<DataType>() ) )
+    if( not pybind11::isinstance<pybind11::array_t<DataType> >( data ) )
     {
       throw std::invalid_argument( "MatrixParameter from numpy ndarray: Input matrix has a different data type (dtype)." );
     }
diff --git a/src/python/rbbl/crossfading_convolver_uniform.cpp b/src/python/rbbl/crossfading_convolver_uniform.cpp
index c0d23d6..bf3c83b 100644
--- a/src/python/rbbl/crossfading_convolver_uniform.cpp
+++ b/src/python/rbbl/crossfading_convolver_uniform.cpp
@@ -24,7 +24,7 @@ namespace // unnamed
 template<typename DataType>
 pybind11::array_t<DataType> wrapProcess( CrossfadingConvolverUniform<DataType> & convolver, pybind11::array const & input )
 {
-  if( not input.dtype().is( pybind11::dtype::of<DataType>() ) )
+  if( not pybind11::isinstance<pybind11::array_t<DataType> >( input ) )
   {
     throw std::invalid_argument( "CrossfadingConvolverUniform::process(): The data type input matrix does not match the used sample data type." );
   }
diff --git a/src/python/rbbl/interpolating_convolver_uniform.cpp b/src/python/rbbl/interpolating_convolver_uniform.cpp
index f77a99d..dceb183 100644
--- a/src/python/rbbl/interpolating_convolver_uniform.cpp
+++ b/src/python/rbbl/interpolating_convolver_uniform.cpp
@@ -26,7 +26,7 @@ namespace // unnamed
 template<typename DataType>
 pybind11::array_t<DataType> wrapProcess( InterpolatingConvolverUniform<DataType> & convolver, pybind11::array const & input )
 {
-  if( not input.dtype().is( pybind11::dtype::of<DataType>() ) )
+  if( not pybind11::isinstance<pybind11::array_t<DataType> >( input ) )
   {
     throw std::invalid_argument( "InterpolatingConvolverUniform::process(): The data type input matrix does not match the used sample data type." );
   }
diff --git a/src/python/rbbl/multichannel_convolver_uniform.cpp b/src/python/rbbl/multichannel_convolver_uniform.cpp
index 4d07570..e8bdb9b 100644
--- a/src/python/rbbl/multichannel_convolver_uniform.cpp
+++ b/src/python/rbbl/multichannel_convolver_uniform.cpp
@@ -25,7 +25,7 @@ namespace // unnamed
 template<typename DataType>
 pybind11::array_t<DataType> wrapProcess( MultichannelConvolverUniform<DataType> & convolver, pybind11::array const & input )
 {
-  if( not input.dtype().is( pybind11::dtype::of<DataType>() ) )
+  if( not pybind11::isinstance<pybind11::array_t<DataType> >( input ) )
   {
     throw std::invalid_argument( "MultichannelConvolverUniform::process(): The data type input matrix does not match the used sample data type." );
   }
diff --git a/src/python/rcl/crossfading_fir_filter_matrix.cpp b/src/python/rcl/crossfading_fir_filter_matrix.cpp
index 0c63bbb..6bdf939 100644
--- a/src/python/rcl/crossfading_fir_filter_matrix.cpp
+++ b/src/python/rcl/crossfading_fir_filter_matrix.cpp
@@ -75,7 +75,7 @@ void exportCrossfadingFirFilterMatrix( py::module & m )
        {
          throw std::invalid_argument( "CrossfadingFirFilterMatrix: Parameter \"filters\" must be a 2D Numpy array." );
        }
-       if( not filters.dtype().is( py::dtype::of<SampleType>() ) )
+       if( not py::isinstance<py::array_t<SampleType> >( filters ) )
        {
          throw std::invalid_argument( "CrossfadingFirFilterMatrix: The data type (dtype) of parameter \"filters\" must match the sample type." );
        }
diff --git a/src/python/rcl/fir_filter_matrix.cpp b/src/python/rcl/fir_filter_matrix.cpp
index 247fede..ff12226 100644
--- a/src/python/rcl/fir_filter_matrix.cpp
+++ b/src/python/rcl/fir_filter_matrix.cpp
@@ -77,7 +77,7 @@ void exportFirFilterMatrix( py::module & m )
        {
          throw std::invalid_argument( "FirFilterMatrix: Parameter \"filters\" must be a 2D Numpy array." );
        }
-       if( not filters.dtype().is( py::dtype::of<SampleType>() ) )
+       if( not py::isinstance<py::array_t<SampleType> >( filters ) )
        {
          throw std::invalid_argument( "FirFilterMatrix: The data type (dtype) of parameter \"filters\" must match the sample type." );
        }
diff --git a/src/python/rcl/interpolating_fir_filter_matrix.cpp b/src/python/rcl/interpolating_fir_filter_matrix.cpp
index b76f846..243c195 100644
--- a/src/python/rcl/interpolating_fir_filter_matrix.cpp
+++ b/src/python/rcl/interpolating_fir_filter_matrix.cpp
@@ -88,7 +88,7 @@ void exportInterpolatingFirFilterMatrix( py::module & m )
        {
          throw std::invalid_argument( "InterpolatingFirFilterMatrix: Parameter \"filters\" must be a 2D Numpy array." );
        }
-       if( not filters.dtype().is( py::dtype::of<SampleType>() ) )
+       if( not py::isinstance<py::array_t<SampleType> >( filters ) )
        {
          throw std::invalid_argument( "InterpolatingFirFilterMatrix: The data type (dtype) of parameter \"filters\" must match the sample type." );
        }
diff --git a/src/python/visr/audio_sample_type.cpp b/src/python/visr/audio_sample_type.cpp
index 065e036..99d952c 100644
--- a/src/python/visr/audio_sample_type.cpp
+++ b/src/python/visr/audio_sample_type.cpp
@@ -104,7 +104,7 @@ void exportAudioSampleType( py::module & m )
       auto const findIt = std::find_if( sampleTypeIdLookup->begin(), sampleTypeIdLookup->end(),
         [pyType]( AudioSampleTypeLookup::value_type const & v ) -> bool
         {
-          return pyType.is(std::get<0>( v ));
+          return pyType.equal( std::get<0>( v ) );
         } );
       if( findIt == sampleTypeIdLookup->end() )
       {
-- 
2.43.0


From a8ae3bfd9378a1738252a31694900c7045517974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:31 +0000
Subject: [PATCH 116/203] fix: spherical harmonics rotation matrices of order
 zero

---
 .../packages/visr_bst/util/spherical_harmonics_rotation.py    | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/python/packages/visr_bst/util/spherical_harmonics_rotation.py b/src/python/packages/visr_bst/util/spherical_harmonics_rotation.py
index 1aac2a9..872ff39 100644
--- a/src/python/packages/visr_bst/util/spherical_harmonics_rotation.py
+++ b/src/python/packages/visr_bst/util/spherical_harmonics_rotation.py
@@ -8,7 +8,7 @@ Created on Sat Mar 17 16:59:20 2018
 import numpy as np
 
 def allSphericalHarmonicsRotationMatrices( order, R ):
-    allRs = [ np.asarray([1.0], dtype=R.dtype), R ]
+    allRs = [ np.asarray([[1.0]], dtype=R.dtype), R ][:order+1]
     for currOrder in range(2, order+1 ):
         allRs.append( sphericalHarmonicsRotationMatrix( currOrder, R, allRs[-1] ) )
     return allRs
@@ -40,7 +40,7 @@ def sphericalHarmonicsRotationMatrix( order, R1, Rminus1 = None ):
         Rotation matrix for the SHs of order 'order', dimension (2*order+1)x(2*order+1)
     """
     if order == 0:
-        return np.asarray( [1,0], dtype = R1.dtype )
+        return np.asarray( [[1.0]], dtype = R1.dtype )
     if order == 1:
         return R1
     if Rminus1 is None:
-- 
2.43.0


From b56dc132e1930ea1e997b9e3dceca96cd320d14f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:31 +0000
Subject: [PATCH 117/203] fix: HoaBinauralRenderer without head rotation

---
 src/python/packages/visr_bst/renderers/hoa_binaural_renderer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/packages/visr_bst/renderers/hoa_binaural_renderer.py b/src/python/packages/visr_bst/renderers/hoa_binaural_renderer.py
index 79eaab9..7158440 100644
--- a/src/python/packages/visr_bst/renderers/hoa_binaural_renderer.py
+++ b/src/python/packages/visr_bst/renderers/hoa_binaural_renderer.py
@@ -178,6 +178,6 @@ class HoaBinauralRenderer( visr.CompositeComponent ):
                 self.parameterConnection( self.trackingInput,
                                          self.rotationCalculator.parameterPort("orientation") )
         else:
-            self.audioConnection( self.hoaSignalInput, self.binauralFilterbank.audioPort("in") )
+            self.audioConnection( self.hoaSignalInput, self.binauralFilterBank.audioPort("in") )
 
         self.audioConnection( self.binauralFilterBank.audioPort("out"), self.binauralOutput )
-- 
2.43.0


From 93ef74615da66923a2bd8f5566e75c3d3fe57ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:31 +0000
Subject: [PATCH 118/203] fix: rotate HOA sound fields by the inverse of the
 head orientation

---
 .../hoa_components/hoa_coefficient_rotation.py      | 13 +++++++++----
 .../hoa_rotation_matrix_calculator.py               |  4 ++--
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/python/packages/visr_bst/hoa_components/hoa_coefficient_rotation.py b/src/python/packages/visr_bst/hoa_components/hoa_coefficient_rotation.py
index f04b9a9..d0357ca 100644
--- a/src/python/packages/visr_bst/hoa_components/hoa_coefficient_rotation.py
+++ b/src/python/packages/visr_bst/hoa_components/hoa_coefficient_rotation.py
@@ -98,7 +98,12 @@ class HoaCoefficientRotation( visr.AtomicComponent ):
 
         if headOrientation is None:
             headOrientation = np.zeros( (3), np.float32 )
-        R1 = rotationMatrixReorderingACN( calcRotationMatrix( headOrientation ) )
+        else:
+            headOrientation = np.asarray( headOrientation, dtype = np.float32 )
+            if headOrientation.size < 3:
+                headOrientation = np.concatenate( (headOrientation,
+                    np.zeros( 3-headOrientation.size, dtype=np.float32) ) )
+        R1 = rotationMatrixReorderingACN( calcRotationMatrix( headOrientation ).T )
         self.rotationMatrices = allSphericalHarmonicsRotationMatrices( self.hoaOrder, R1 )
 
     def process( self ):
@@ -107,9 +112,9 @@ class HoaCoefficientRotation( visr.AtomicComponent ):
         """
         if self.trackingInputProtocol.changed():
             head = self.trackingInputProtocol.data()
-            ypr = - np.array(head.orientationYPR, dtype = np.float32 ) # negative because we rotate the sound field in the opposite
-            # direction of the head orientation.
-            R1 = rotationMatrixReorderingACN( calcRotationMatrix(ypr) )
+            ypr = np.array(head.orientationYPR, dtype = np.float32 )
+            # Transposed because we rotate the sound field in the opposite direction of the head orientation.
+            R1 = rotationMatrixReorderingACN( calcRotationMatrix(ypr).T )
             self.rotationMatrices = allSphericalHarmonicsRotationMatrices( self.hoaOrder, R1 )
             self.trackingInputProtocol.resetChanged()
 
diff --git a/src/python/packages/visr_bst/hoa_components/hoa_rotation_matrix_calculator.py b/src/python/packages/visr_bst/hoa_components/hoa_rotation_matrix_calculator.py
index ac8a5ed..c796342 100644
--- a/src/python/packages/visr_bst/hoa_components/hoa_rotation_matrix_calculator.py
+++ b/src/python/packages/visr_bst/hoa_components/hoa_rotation_matrix_calculator.py
@@ -114,8 +114,8 @@ class HoaRotationMatrixCalculator( visr.AtomicComponent ):
         """
         if (self.orientationInputProtocol is not None ) and self.orientationInputProtocol.changed():
             head = self.orientationInputProtocol.data()
-            ypr = - np.array(head.orientationYPR, dtype = np.float32 ) # negative because we rotate the sound field in the opposite
-            # direction of the head orientation.
+            ypr = np.array(head.orientationYPR, dtype = np.float32 )
+            # This matrix rotates the sound field in the opposite direction of the head orientation.
             R1 = rotationMatrixReorderingACN( calcRotationMatrix(ypr) )
             self.rotationMatrices = allSphericalHarmonicsRotationMatrices( self.hoaOrder, R1 )
             self.orientationInputProtocol.resetChanged()
-- 
2.43.0


From 5944b18a7fe0e73ba30caecb6506c6ac71de450f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:31 +0000
Subject: [PATCH 119/203] fix: head orientation of HoaObjectToBinauralRenderer

---
 .../hoa_components/hoa_coefficient_rotation.py    | 13 ++++++++-----
 .../renderers/hoa_object_to_binaural_renderer.py  | 15 +++++++++------
 2 files changed, 17 insertions(+), 11 deletions(-)

diff --git a/src/python/packages/visr_bst/hoa_components/hoa_coefficient_rotation.py b/src/python/packages/visr_bst/hoa_components/hoa_coefficient_rotation.py
index d0357ca..1c6f139 100644
--- a/src/python/packages/visr_bst/hoa_components/hoa_coefficient_rotation.py
+++ b/src/python/packages/visr_bst/hoa_components/hoa_coefficient_rotation.py
@@ -91,10 +91,13 @@ class HoaCoefficientRotation( visr.AtomicComponent ):
         self.coefficientOutputProtocol = self.coefficientOutput.protocolOutput()
 
         # Instantiate the head tracker input.
-        self.trackingInput = visr.ParameterInput( "tracking", self, pml.ListenerPosition.staticType,
-                                                  pml.DoubleBufferingProtocol.staticType,
-                                                  pml.EmptyParameterConfig() )
-        self.trackingInputProtocol = self.trackingInput.protocolInput()
+        if dynamicUpdates:
+            self.trackingInput = visr.ParameterInput( "tracking", self, pml.ListenerPosition.staticType,
+                                                      pml.DoubleBufferingProtocol.staticType,
+                                                      pml.EmptyParameterConfig() )
+            self.trackingInputProtocol = self.trackingInput.protocolInput()
+        else:
+            self.trackingInputProtocol = None
 
         if headOrientation is None:
             headOrientation = np.zeros( (3), np.float32 )
@@ -110,7 +113,7 @@ class HoaCoefficientRotation( visr.AtomicComponent ):
         """
         Processing function, called from the runtime system in every iteration of the signal flow.
         """
-        if self.trackingInputProtocol.changed():
+        if (self.trackingInputProtocol is not None) and self.trackingInputProtocol.changed():
             head = self.trackingInputProtocol.data()
             ypr = np.array(head.orientationYPR, dtype = np.float32 )
             # Transposed because we rotate the sound field in the opposite direction of the head orientation.
diff --git a/src/python/packages/visr_bst/renderers/hoa_object_to_binaural_renderer.py b/src/python/packages/visr_bst/renderers/hoa_object_to_binaural_renderer.py
index 5545dca..d7771a2 100644
--- a/src/python/packages/visr_bst/renderers/hoa_object_to_binaural_renderer.py
+++ b/src/python/packages/visr_bst/renderers/hoa_object_to_binaural_renderer.py
@@ -162,14 +162,17 @@ class HoaObjectToBinauralRenderer( visr.CompositeComponent ):
         self.audioConnection( self.encoderMatrix.audioPort("out"), self.binauralFilterBank.audioPort("in") )
         self.audioConnection( self.binauralFilterBank.audioPort("out"), self.binauralOutput )
 
-        if headTracking:
-            self.trackingInput = visr.ParameterInput( "tracking", self, pml.ListenerPosition.staticType,
-                                              pml.DoubleBufferingProtocol.staticType,
-                                              pml.EmptyParameterConfig() )
+        if headTracking or (headOrientation is not None):
             self.coefficientRotator = HoaCoefficientRotation( context, 'coefficientRotator', self,
                                                               numberOfObjects = numberOfObjects,
-                                                              hoaOrder = maxHoaOrder)
-            self.parameterConnection( self.trackingInput, self.coefficientRotator.parameterPort("tracking") )
+                                                              hoaOrder = maxHoaOrder,
+                                                              dynamicUpdates = headTracking,
+                                                              headOrientation = headOrientation )
+            if headTracking:
+                self.trackingInput = visr.ParameterInput( "tracking", self, pml.ListenerPosition.staticType,
+                                                  pml.DoubleBufferingProtocol.staticType,
+                                                  pml.EmptyParameterConfig() )
+                self.parameterConnection( self.trackingInput, self.coefficientRotator.parameterPort("tracking") )
             self.parameterConnection( self.objectEncoder.parameterPort("coefficientOutput"),
                                      self.coefficientRotator.parameterPort("coefficientInput") )
             self.parameterConnection( self.coefficientRotator.parameterPort("coefficientOutput"),
-- 
2.43.0


From d64b17f37cbafc67c734b5402e40b6f9ceedff64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:31 +0000
Subject: [PATCH 120/203] fix: object input of
 RealtimeHoaObjectToBinauralRenderer

---
 .../realtime_hoa_object_to_binaural_renderer.py               | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/python/packages/visr_bst/realtime_renderers/realtime_hoa_object_to_binaural_renderer.py b/src/python/packages/visr_bst/realtime_renderers/realtime_hoa_object_to_binaural_renderer.py
index 472a0a3..543248c 100644
--- a/src/python/packages/visr_bst/realtime_renderers/realtime_hoa_object_to_binaural_renderer.py
+++ b/src/python/packages/visr_bst/realtime_renderers/realtime_hoa_object_to_binaural_renderer.py
@@ -136,7 +136,7 @@ class RealtimeHoaObjectToBinauralRenderer(visr.CompositeComponent ):
                                                          pml.DoubleBufferingProtocol.staticType,
                                                          pml.EmptyParameterConfig() )
             self.parameterConnection( self.objectVectorInput,
-                                     self.hoaBinauralRenderer.parameterPort("objects"))
+                                     self.hoaBinauralRenderer.parameterPort("objectVector"))
         else:
             self.sceneReceiver = rcl.UdpReceiver( context, "SceneReceiver", self,
                                                  port = int(sceneReceiveUdpPort) )
@@ -144,7 +144,7 @@ class RealtimeHoaObjectToBinauralRenderer(visr.CompositeComponent ):
             self.parameterConnection( self.sceneReceiver.parameterPort("messageOutput"),
                                  self.sceneDecoder.parameterPort("datagramInput") )
             self.parameterConnection( self.sceneDecoder.parameterPort( "objectVectorOutput"),
-                                 self.hoaBinauralRenderer.parameterPort("objects"))
+                                 self.hoaBinauralRenderer.parameterPort("objectVector"))
 
         if enableTracking:
             if headTrackingPositionalArguments == None:
-- 
2.43.0


From fba408c3ee9929281eb41ef456437fcabf3d03c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:31 +0000
Subject: [PATCH 121/203] fix: HoaObjectEncoder renders plane waves and ignores
 other object types

---
 .../visr_bst/hoa_components/hoa_object_encoder.py    | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/python/packages/visr_bst/hoa_components/hoa_object_encoder.py b/src/python/packages/visr_bst/hoa_components/hoa_object_encoder.py
index 03ca0fb..61dbbdd 100644
--- a/src/python/packages/visr_bst/hoa_components/hoa_object_encoder.py
+++ b/src/python/packages/visr_bst/hoa_components/hoa_object_encoder.py
@@ -41,7 +41,7 @@ import objectmodel as om
 import rbbl
 
 # Helper functions contained in the
-from visr_bst.util import cart2sph
+from visr_bst.util import cart2sph, deg2rad, sph2cart
 from visr_bst.util import allSphHarmRealACN
 
 # Standard Python packages
@@ -134,16 +134,22 @@ class HoaObjectEncoder( visr.AtomicComponent ):
                 pos = np.zeros( (self.numberOfObjects,3), dtype=coeffOut.dtype )
                 pos[:,0] = 1.0 # Set unused sources to a valid direction.
                 for src in ov:
+                    if not isinstance( src, (om.PointSource, om.PlaneWave) ):
+                        continue
                     chIdx = src.channels[0]
-                    if chIdx > self.numberOfObjects:
+                    if chIdx >= self.numberOfObjects:
                         warnings.warn('The number of dynamically instantiated sound objects is more than the maximum number specified')
                         continue
                     levels[chIdx] = src.level
-                    pos[chIdx,:] = src.position
+                    if isinstance( src, om.PlaneWave ):
+                        pos[chIdx,:] = sph2cart( np.asarray( [deg2rad(src.azimuth), deg2rad(src.elevation), 1.0] ) )
+                    else:
+                        pos[chIdx,:] = src.position
                 sphPos = cart2sph( pos[:,0], pos[:,1], pos[:,2] )
                 shCoeffs = allSphHarmRealACN( self.hoaOrder, np.pi/2-sphPos[1,:], sphPos[0,:], dtype = coeffOut.dtype )
                 res = shCoeffs * levels[np.newaxis,:]
                 coeffOut[...] = res
+            self.objectInputProtocol.resetChanged()
 # Old, serialized code:
 #                for index,src in enumerate(ov):
 #                    if index < self.numberOfObjects :
-- 
2.43.0


From c3dfc914c557f9db7e2628f589f0f1e7d07696b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:31 +0000
Subject: [PATCH 122/203] fix: keep the HRIR positions passed by the caller
 unchanged

---
 .../packages/visr_bst/controllers/dynamic_hrir_controller.py   | 3 ++-
 .../visr_bst/controllers/virtual_loudspeaker_controller.py     | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/python/packages/visr_bst/controllers/dynamic_hrir_controller.py b/src/python/packages/visr_bst/controllers/dynamic_hrir_controller.py
index d5226bd..24ae44c 100644
--- a/src/python/packages/visr_bst/controllers/dynamic_hrir_controller.py
+++ b/src/python/packages/visr_bst/controllers/dynamic_hrir_controller.py
@@ -183,8 +183,9 @@ class DynamicHrirController( visr.AtomicComponent ):
 
         # Normalise the hrir positions to unit radius (to let the k-d tree
         # lookup work as expected.)
+        hrirPositions = np.array( hrirPositions, copy = True, dtype = np.float32 )
         hrirPositions[:,2] = 1.0
-        self.hrirPos = sph2cart(np.array( hrirPositions, copy = True, dtype = np.float32 ))
+        self.hrirPos = sph2cart( hrirPositions )
         self.hrirInterpolation = hrirInterpolation
         if self.hrirInterpolation:
             self.lastPosition = np.repeat( [[np.nan, np.nan, np.nan]], self.numberOfObjects, axis=0 )
diff --git a/src/python/packages/visr_bst/controllers/virtual_loudspeaker_controller.py b/src/python/packages/visr_bst/controllers/virtual_loudspeaker_controller.py
index 0f08ba0..3749bfa 100644
--- a/src/python/packages/visr_bst/controllers/virtual_loudspeaker_controller.py
+++ b/src/python/packages/visr_bst/controllers/virtual_loudspeaker_controller.py
@@ -160,8 +160,9 @@ class VirtualLoudspeakerController( visr.AtomicComponent ):
             # polar->Cartesian plus normalisation to unit radius
             self.hrirPos = np.array(np.stack( ( np.cos(hrirPositions[:,0]), np.sin(hrirPositions[:,0])), axis = 1), dtype=np.float32 )
         elif hrirPosDim == 3:
+            hrirPositions = np.array( hrirPositions, copy = True, dtype = np.float32 )
             hrirPositions[:,2] = 1.0 # Normalise to unit vectors
-            self.hrirPos = sph2cart( np.array(hrirPositions, dtype=np.float32 ) )
+            self.hrirPos = sph2cart( hrirPositions )
         else:
             raise ValueError( 'HRIR position data has unsupported vector dimension.' )
 
-- 
2.43.0


From 85d986c5009263e1e89eb5ede84595781035a467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:31 +0000
Subject: [PATCH 123/203] fix: normalise the weights of HRIR interpolation

---
 .../packages/visr_bst/controllers/dynamic_hrir_controller.py    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/packages/visr_bst/controllers/dynamic_hrir_controller.py b/src/python/packages/visr_bst/controllers/dynamic_hrir_controller.py
index 24ae44c..7eb53d2 100644
--- a/src/python/packages/visr_bst/controllers/dynamic_hrir_controller.py
+++ b/src/python/packages/visr_bst/controllers/dynamic_hrir_controller.py
@@ -261,7 +261,7 @@ class DynamicHrirController( visr.AtomicComponent ):
             #Select the gains for the matching triplets.
             unNormedGains = allGains[matchingTriplet,:,range(0,self.numberOfObjects)]
             gainNorm = np.linalg.norm( unNormedGains, ord=1, axis = -1 )
-            gains = np.repeat( gainNorm[:,np.newaxis], 3, axis=-1 ) * unNormedGains
+            gains = unNormedGains / gainNorm[:,np.newaxis]
         else: # No interpolation
             dotprod = self.hrirPos @ translatedSourcePos.T
             #make it a 2D array
-- 
2.43.0


From 9a41f89436fc6feb113702e7fa78f9b3de3b6974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:31 +0000
Subject: [PATCH 124/203] fix: inverse of head orientations about several axes
 in DynamicHrirController

---
 .../packages/visr_bst/controllers/dynamic_hrir_controller.py  | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/python/packages/visr_bst/controllers/dynamic_hrir_controller.py b/src/python/packages/visr_bst/controllers/dynamic_hrir_controller.py
index 7eb53d2..076c52e 100644
--- a/src/python/packages/visr_bst/controllers/dynamic_hrir_controller.py
+++ b/src/python/packages/visr_bst/controllers/dynamic_hrir_controller.py
@@ -209,8 +209,8 @@ class DynamicHrirController( visr.AtomicComponent ):
         if self.useHeadTracking and self.trackingInputProtocol.changed():
             htrack = self.trackingInputProtocol.data()
             ypr = htrack.orientationYPR
-            # np.negative is to obtain the opposite rotation of the head rotation, i.e. the inverse matrix of head rotation matrix
-            self.rotationMatrix = np.asarray( calcRotationMatrix(np.negative(ypr) ), dtype=np.float32 )
+            # The transpose is the opposite rotation of the head rotation, i.e. the inverse matrix of head rotation matrix
+            self.rotationMatrix = np.asarray( calcRotationMatrix( np.asarray(ypr) ).T, dtype=np.float32 )
             self.trackingInputProtocol.resetChanged()
 
         if self.objectInputProtocol.changed():
-- 
2.43.0


From acaa5193ad3a17d7351f07da0c3bbf58fbdf4fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:31 +0000
Subject: [PATCH 125/203] fix: DynamicHrirController ignores other object types

---
 .../visr_bst/controllers/dynamic_hrir_controller.py       | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/python/packages/visr_bst/controllers/dynamic_hrir_controller.py b/src/python/packages/visr_bst/controllers/dynamic_hrir_controller.py
index 076c52e..7af77e5 100644
--- a/src/python/packages/visr_bst/controllers/dynamic_hrir_controller.py
+++ b/src/python/packages/visr_bst/controllers/dynamic_hrir_controller.py
@@ -230,8 +230,11 @@ class DynamicHrirController( visr.AtomicComponent ):
                     self.sourcePos[chIdx,:] = ov[objIdx].position
                     self.levels[chIdx] = ov[objIdx].level
             else:
-                for index,src in enumerate(ov):
-                    if index < self.numberOfObjects :
+                for src in ov:
+                    if not isinstance( src, (om.PointSource, om.PlaneWave) ):
+                        continue
+                    ch = src.channels[0]
+                    if ch < self.numberOfObjects :
                         if isinstance( src, om.PointSource ):
                             pos = np.asarray(src.position, dtype=np.float32 )
                         elif isinstance( src, om.PlaneWave ):
@@ -241,7 +244,6 @@ class DynamicHrirController( visr.AtomicComponent ):
                             sph = np.asarray([az,el,r])
                             pos = np.asarray(sph2cart( sph ))
                         posNormed = 1.0/np.sqrt(np.sum(np.square(pos))) * pos
-                        ch = src.channels[0]
                         self.sourcePos[ch,:] = posNormed
                         self.levels[ch] = src.level
                     else:
-- 
2.43.0


From 488cdbdeeea5171e10147570f590304d827f1636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:31 +0000
Subject: [PATCH 126/203] fix: static and initial head orientation of
 DynamicHrirRenderer

---
 .../visr_bst/controllers/dynamic_hrir_controller.py      | 9 ++++++++-
 .../packages/visr_bst/renderers/dynamic_hrir_renderer.py | 3 ++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/python/packages/visr_bst/controllers/dynamic_hrir_controller.py b/src/python/packages/visr_bst/controllers/dynamic_hrir_controller.py
index 7af77e5..8ff3bc8 100644
--- a/src/python/packages/visr_bst/controllers/dynamic_hrir_controller.py
+++ b/src/python/packages/visr_bst/controllers/dynamic_hrir_controller.py
@@ -66,6 +66,7 @@ class DynamicHrirController( visr.AtomicComponent ):
                   hrirInterpolation = False, # HRTF interpolation selection: False: Nearest neighbour, True: Barycentric (3-point) interpolation
                   channelAllocation = False, # Whether to allocate object channels dynamically (not tested yet)
                   hrirDelays = None,         # Matrix of delays associated with filter dataset. Dimension: # filters * 2
+                  headOrientation = None     # Head orientation (yaw, pitch, roll), used until the first head tracking update.
                   ):
         """
         Constructor.
@@ -99,6 +100,9 @@ class DynamicHrirController( visr.AtomicComponent ):
         hrirDelays: numpy.ndarray
             Matrix of delays associated with filter dataset. Dimension: # filters * 2. Default None means there are no separate
             delays, i.e., they must be contained in the HRIR data.
+        headOrientation: array-like, optional
+            Head orientation in spherical coordinates (2- or 3-element vector or list).
+            Either a static orientation (when no tracking is used), or the initial view direction.
         """
         # Call base class (AtomicComponent) constructor
         super( DynamicHrirController, self ).__init__( context, name, parent )
@@ -121,7 +125,10 @@ class DynamicHrirController( visr.AtomicComponent ):
         else:
             self.useHeadTracking = False
             self.trackingInputProtocol = None # Flag that head tracking is not used.
-        self.rotationMatrix = np.identity( 3, dtype=np.float32 )
+        ypr = np.zeros( 3, dtype=np.float32 )
+        if headOrientation is not None:
+            ypr[:len(headOrientation)] = headOrientation
+        self.rotationMatrix = np.asarray( calcRotationMatrix( ypr ).T, dtype=np.float32 )
 
         self.interpolatingConvolver = interpolatingConvolver
         if interpolatingConvolver:
diff --git a/src/python/packages/visr_bst/renderers/dynamic_hrir_renderer.py b/src/python/packages/visr_bst/renderers/dynamic_hrir_renderer.py
index c321794..d4b5fec 100644
--- a/src/python/packages/visr_bst/renderers/dynamic_hrir_renderer.py
+++ b/src/python/packages/visr_bst/renderers/dynamic_hrir_renderer.py
@@ -155,7 +155,8 @@ class DynamicHrirRenderer( visr.CompositeComponent ):
                                                                   dynamicILD = dynamicILD,
                                                                   hrirInterpolation = hrirInterpolation,
                                                                   interpolatingConvolver = interpolatingConvolver,
-                                                                  hrirDelays = hrirDelays
+                                                                  hrirDelays = hrirDelays,
+                                                                  headOrientation = headOrientation
                                                                   )
 
         self.parameterConnection( self.objectVectorInput, self.dynamicHrirController.parameterPort("objectVector"))
-- 
2.43.0


From bc355335dae0fe11a35529066ff6c2c57fee7eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:31 +0000
Subject: [PATCH 127/203] fix: static and initial head orientation of virtual
 loudspeaker renderers

---
 .../controllers/virtual_loudspeaker_controller.py         | 8 ++++----
 .../realtime_virtual_loudspeaker_renderer.py              | 2 +-
 .../visr_bst/renderers/virtual_loudspeaker_renderer.py    | 1 +
 3 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/python/packages/visr_bst/controllers/virtual_loudspeaker_controller.py b/src/python/packages/visr_bst/controllers/virtual_loudspeaker_controller.py
index 3749bfa..5ff0dcd 100644
--- a/src/python/packages/visr_bst/controllers/virtual_loudspeaker_controller.py
+++ b/src/python/packages/visr_bst/controllers/virtual_loudspeaker_controller.py
@@ -179,7 +179,7 @@ class VirtualLoudspeakerController( visr.AtomicComponent ):
         if headOrientation is None:
             headOrientation = np.array( [0.0, 0.0, 0.0 ], self.hrirPos.dtype )
         else:
-            headOrientation = np.asarray( headOrientation )
+            headOrientation = np.asarray( headOrientation, self.hrirPos.dtype )
         self.headDir = orientationToDirectionVector( headOrientation, self.hrirPos.shape[-1] )
 
     def process( self ):
@@ -187,7 +187,7 @@ class VirtualLoudspeakerController( visr.AtomicComponent ):
         if self.useHeadTracking and self.trackingInputProtocol.changed():
             htrack = self.trackingInputProtocol.data()
             ypr = np.asarray(htrack.orientationYPR, dtype=self.hrirPos.dtype)
-            self.headDir = orientationToDirectionVector( -ypr, self.hrirPos.shape[-1] )
+            self.headDir = orientationToDirectionVector( ypr, self.hrirPos.shape[-1] )
             self.trackingInputProtocol.resetChanged()
 
         # Obtain access to the delay output
@@ -254,7 +254,7 @@ class VirtualLoudspeakerController( visr.AtomicComponent ):
 def orientationToDirectionVector( ypr, dimension ):
     """ Local function to convert an yaw-pitch-roll vector into a direction vector. """
     if ypr.shape[-1] < 3:
-        ypr = np.concatenate( ypr, np.zeros( 3-ypr.shape[-1], dtype=ypr.dtype ))
-    rotMtx = calcRotationMatrix( - ypr )
+        ypr = np.concatenate( (ypr, np.zeros( 3-ypr.shape[-1], dtype=ypr.dtype )) )
+    rotMtx = calcRotationMatrix( ypr )
     dirVec = np.dot( np.array( [1.0, 0.0, 0.0], dtype=ypr.dtype), rotMtx )
     return dirVec[:dimension]
diff --git a/src/python/packages/visr_bst/realtime_renderers/realtime_virtual_loudspeaker_renderer.py b/src/python/packages/visr_bst/realtime_renderers/realtime_virtual_loudspeaker_renderer.py
index 028e26f..d76622b 100644
--- a/src/python/packages/visr_bst/realtime_renderers/realtime_virtual_loudspeaker_renderer.py
+++ b/src/python/packages/visr_bst/realtime_renderers/realtime_virtual_loudspeaker_renderer.py
@@ -156,7 +156,7 @@ class RealtimeVirtualLoudspeakerRenderer(visr.CompositeComponent ):
                                                        hrirPositions = hrirPositions,
                                                        hrirData = hrirData,
                                                        hrirDelays = hrirDelays,
-                                                       headOrientation = None,
+                                                       headOrientation = headOrientation,
                                                        headTracking = enableTracking,
                                                        dynamicITD = dynamicITD,
                                                        hrirInterpolation = hrirInterpolation,
diff --git a/src/python/packages/visr_bst/renderers/virtual_loudspeaker_renderer.py b/src/python/packages/visr_bst/renderers/virtual_loudspeaker_renderer.py
index 5e9b1b4..154a6e0 100644
--- a/src/python/packages/visr_bst/renderers/virtual_loudspeaker_renderer.py
+++ b/src/python/packages/visr_bst/renderers/virtual_loudspeaker_renderer.py
@@ -161,6 +161,7 @@ class VirtualLoudspeakerRenderer( visr.CompositeComponent ):
         self.virtualLoudspeakerController = VirtualLoudspeakerController( context, "VirtualLoudspeakerController", self,
                                                                   hrirPositions=hrirPositions,
                                                                   hrirData = hrirData,
+                                                                  headOrientation = headOrientation,
                                                                   headTracking = headTracking,
                                                                   dynamicITD = dynamicITD,
                                                                   hrirInterpolation = hrirInterpolation,
-- 
2.43.0


From c1fdc59765cc892fcbf56cfa8c776062072b12d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:31 +0000
Subject: [PATCH 128/203] fix: interpolating convolver of
 VirtualLoudspeakerRenderer

---
 .../virtual_loudspeaker_controller.py         | 20 +++++++++++++------
 .../renderers/virtual_loudspeaker_renderer.py |  9 ++++++---
 2 files changed, 20 insertions(+), 9 deletions(-)

diff --git a/src/python/packages/visr_bst/controllers/virtual_loudspeaker_controller.py b/src/python/packages/visr_bst/controllers/virtual_loudspeaker_controller.py
index 5ff0dcd..13749b1 100644
--- a/src/python/packages/visr_bst/controllers/virtual_loudspeaker_controller.py
+++ b/src/python/packages/visr_bst/controllers/virtual_loudspeaker_controller.py
@@ -236,12 +236,20 @@ class VirtualLoudspeakerController( visr.AtomicComponent ):
             hrirIndex = np.argmax( dotprod, axis = 0 )
             if self.lastHrirIndex != hrirIndex:
                 for chIdx in range(0,self.numberOfLoudspeakers):
-                    leftCmd  = pml.IndexedVectorFloat( chIdx,
-                                                      self.hrirs[hrirIndex,0,chIdx,:])
-                    rightCmd = pml.IndexedVectorFloat( chIdx+self.numberOfLoudspeakers,
-                                                      self.hrirs[hrirIndex,1,chIdx,:])
-                    self.filterOutputProtocol.enqueue( leftCmd )
-                    self.filterOutputProtocol.enqueue( rightCmd )
+                    if self.interpolationOutputProtocol is not None:
+                        leftIndex = int(hrirIndex*2+0)*self.numberOfLoudspeakers + chIdx
+                        rightIndex = int(hrirIndex*2+1)*self.numberOfLoudspeakers + chIdx
+                        self.interpolationOutputProtocol.enqueue(
+                            pml.InterpolationParameter( chIdx, [leftIndex], [1.0] ) )
+                        self.interpolationOutputProtocol.enqueue(
+                            pml.InterpolationParameter( chIdx+self.numberOfLoudspeakers, [rightIndex], [1.0] ) )
+                    else:
+                        leftCmd  = pml.IndexedVectorFloat( chIdx,
+                                                          self.hrirs[hrirIndex,0,chIdx,:])
+                        rightCmd = pml.IndexedVectorFloat( chIdx+self.numberOfLoudspeakers,
+                                                          self.hrirs[hrirIndex,1,chIdx,:])
+                        self.filterOutputProtocol.enqueue( leftCmd )
+                        self.filterOutputProtocol.enqueue( rightCmd )
 
                 if self.dynamicITD:
                     delayVec[0:self.numberOfLoudspeakers] = self.dynamicDelays[hrirIndex,0,:]
diff --git a/src/python/packages/visr_bst/renderers/virtual_loudspeaker_renderer.py b/src/python/packages/visr_bst/renderers/virtual_loudspeaker_renderer.py
index 154a6e0..71d9053 100644
--- a/src/python/packages/visr_bst/renderers/virtual_loudspeaker_renderer.py
+++ b/src/python/packages/visr_bst/renderers/virtual_loudspeaker_renderer.py
@@ -179,6 +179,9 @@ class VirtualLoudspeakerRenderer( visr.CompositeComponent ):
 
         firLength = hrirData.shape[-1]
 
+        # Used if the interpolating convolver is selected: 2 or 3 neighbouring grid points for 2D or 3D grids.
+        numberOfInterpolants = hrirPositions.shape[-1] if hrirInterpolation else 1
+
         if dynamicITD:
             self.delayVector = rcl.DelayVector( context, "delayVector", self,
                                                numberOfLoudspeakers*2, interpolationType="lagrangeOrder3", initialDelay=0,
@@ -208,11 +211,11 @@ class VirtualLoudspeakerRenderer( visr.CompositeComponent ):
                                                  maxFilters=numFilters,
                                                  filterLength=firLength,
                                                  maxRoutings=2*numberOfLoudspeakers,
-                                                 numberOfInterpolants=2, # TODO: Find out from
+                                                 numberOfInterpolants=numberOfInterpolants,
                                                  transitionSamples=interpolationSteps,
                                                  filters = filterReshaped,
                                                  routings=filterRouting,
-                                                 controlInputs=rcl.InterpolatingFirFilterMatrix.ControlPortConfig.Filters,
+                                                 controlInputs=rcl.InterpolatingFirFilterMatrix.ControlPortConfig.Interpolants,
                                                  fftImplementation=fftImplementation
                                                  )
 
@@ -262,7 +265,7 @@ class VirtualLoudspeakerRenderer( visr.CompositeComponent ):
                                                  maxFilters=numFilters,
                                                  filterLength=firLength,
                                                  maxRoutings=2*numberOfLoudspeakers,
-                                                 numberOfInterpolants=2, # TODO: Find out from
+                                                 numberOfInterpolants=numberOfInterpolants,
                                                  transitionSamples=interpolationSteps,
                                                  filters = filterReshaped,
                                                  routings=filterRouting,
-- 
2.43.0


From 3c93658b21151cb73c96e5b7e621f10cbd19cd91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:31 +0000
Subject: [PATCH 129/203] fix: delays of the virtual loudspeaker controller
 without interpolation

---
 .../controllers/virtual_loudspeaker_controller.py        | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/python/packages/visr_bst/controllers/virtual_loudspeaker_controller.py b/src/python/packages/visr_bst/controllers/virtual_loudspeaker_controller.py
index 13749b1..a7d860a 100644
--- a/src/python/packages/visr_bst/controllers/virtual_loudspeaker_controller.py
+++ b/src/python/packages/visr_bst/controllers/virtual_loudspeaker_controller.py
@@ -251,11 +251,12 @@ class VirtualLoudspeakerController( visr.AtomicComponent ):
                         self.filterOutputProtocol.enqueue( leftCmd )
                         self.filterOutputProtocol.enqueue( rightCmd )
 
-                if self.dynamicITD:
-                    delayVec[0:self.numberOfLoudspeakers] = self.dynamicDelays[hrirIndex,0,:]
-                    delayVec[self.numberOfLoudspeakers:] = self.dynamicDelays[hrirIndex,1,:]
-
                 self.lastHrirIndex = hrirIndex
+
+            # The delay buffers are swapped in every iteration, thus both have to be written.
+            if self.dynamicITD:
+                delayVec[0:self.numberOfLoudspeakers] = self.dynamicDelays[hrirIndex,0,:]
+                delayVec[self.numberOfLoudspeakers:] = self.dynamicDelays[hrirIndex,1,:]
         if self.dynamicITD:
             self.delayOutputProtocol.swapBuffers()
 
-- 
2.43.0


From 5c914b1592413d593e82b3b9b261230eaee47766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:31 +0000
Subject: [PATCH 130/203] fix: gains of the static late part of
 VirtualLoudspeakerRenderer

---
 .../packages/visr_bst/renderers/virtual_loudspeaker_renderer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/packages/visr_bst/renderers/virtual_loudspeaker_renderer.py b/src/python/packages/visr_bst/renderers/virtual_loudspeaker_renderer.py
index 71d9053..38a188e 100644
--- a/src/python/packages/visr_bst/renderers/virtual_loudspeaker_renderer.py
+++ b/src/python/packages/visr_bst/renderers/virtual_loudspeaker_renderer.py
@@ -317,7 +317,7 @@ class VirtualLoudspeakerRenderer( visr.CompositeComponent ):
                                                     2*numberOfLoudspeakers,
                                                     interpolationSteps=context.period,
                                                     interpolationType='nearestSample',
-                                                    initialGain = np.ones( (numberOfLoudspeakers), dtype=np.float32 ),
+                                                    initialGain = np.ones( (2*numberOfLoudspeakers), dtype=np.float32 ),
                                                     initialDelay = flatDelays )
             lateFilterRouting = rbbl.FilterRoutingList(
                     [rbbl.FilterRouting(i,
-- 
2.43.0


From 2a9d1ee29f80170df42091b97aec619b9bca4ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:31 +0000
Subject: [PATCH 131/203] fix: repeated calibration of HdMTracker

---
 src/python/packages/visr_bst/tracker/hdm_tracker.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/python/packages/visr_bst/tracker/hdm_tracker.py b/src/python/packages/visr_bst/tracker/hdm_tracker.py
index 83e5f38..42000c2 100644
--- a/src/python/packages/visr_bst/tracker/hdm_tracker.py
+++ b/src/python/packages/visr_bst/tracker/hdm_tracker.py
@@ -137,12 +137,13 @@ class HdMTracker(visr.AtomicComponent ):
           yprVecRaw = list(q.to_euler(degrees=True)) # Convert to Euler angles, outputs RPY
           #   yprvec[0], yprvec[2] = yprvec[2], yprvec[0] # Switch to VISR format YPR
           #   yprvec[0] *= -1; yprvec[1] *= -1; yprvec[2] *= -1;
-          yprVec = self.yprTranslation @ yprVecRaw + self.yprOffset
+          yprVecUnadjusted = self.yprTranslation @ yprVecRaw
+          yprVec = yprVecUnadjusted + self.yprOffset
           
           if np.array(yprVec).size != 3:
             raise ValueError( 'yaw pitch roll bad format:'+str(np.array(yprVec)))
 
-          self.orientationYPR = yprVec # Store the current position
+          self.orientationYPR = yprVecUnadjusted # Store the current position
 #          print(yprvec)
           
           ypr = self.trackingOutput.protocolOutput().data()
@@ -150,9 +151,9 @@ class HdMTracker(visr.AtomicComponent ):
 
           # [deg2rad(yprvec[0]+self.yawOffset),deg2rad(yprvec[1]+self.pitchOffset),deg2rad(yprvec[2]+self.rollOffset)]
 
-          ypr.orientationYPR = [deg2rad(self.orientationYPR[0]),
-                                deg2rad(self.orientationYPR[1]),
-                                deg2rad(self.orientationYPR[2])]
+          ypr.orientationYPR = [deg2rad(yprVec[0]),
+                                deg2rad(yprVec[1]),
+                                deg2rad(yprVec[2])]
 
           self.sentN = self.sentN+1
 #          print("%d serial parsing %f sec"%(self.procN,time.time()-self.start))
-- 
2.43.0


From 71cde27b32aae4e1ed12334c97f38e056d6657f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:29 +0000
Subject: [PATCH 132/203] fix: split message terminators in RazorAHRS

---
 src/python/packages/visr_bst/tracker/razor_ahrs.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/python/packages/visr_bst/tracker/razor_ahrs.py b/src/python/packages/visr_bst/tracker/razor_ahrs.py
index 9217f49..711f505 100644
--- a/src/python/packages/visr_bst/tracker/razor_ahrs.py
+++ b/src/python/packages/visr_bst/tracker/razor_ahrs.py
@@ -168,6 +168,10 @@ class RazorAHRS(visr.AtomicComponent ):
 
 
     def parse_message (self, read):
+         # Rejoin a message terminator that is split between two reads.
+         if self.message.endswith("\r") and read.startswith("\n"):
+             self.message = self.message[:-1]
+             read = "\r" + read
          last = read.rfind("\r\n")
          if last == -1:
               self.message+=read
-- 
2.43.0


From ea3f15e82e4ed1cffd352046f0bb96c07f79761d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:59 +0000
Subject: [PATCH 133/203] fix: ObjectToVirtualLoudspeakerRenderer keeps its
 options unchanged

---
 .../visr_bst/renderers/object_to_virtual_loudspeaker_renderer.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/python/packages/visr_bst/renderers/object_to_virtual_loudspeaker_renderer.py b/src/python/packages/visr_bst/renderers/object_to_virtual_loudspeaker_renderer.py
index 97b581a..468ebbd 100644
--- a/src/python/packages/visr_bst/renderers/object_to_virtual_loudspeaker_renderer.py
+++ b/src/python/packages/visr_bst/renderers/object_to_virtual_loudspeaker_renderer.py
@@ -159,6 +159,7 @@ class ObjectToVirtualLoudspeakerRenderer( visr.CompositeComponent ):
                                           pml.DoubleBufferingProtocol.staticType,
                                           pml.EmptyParameterConfig() )
 
+        objectRendererOptions = dict( objectRendererOptions ) # Do not alter the argument (or its default value).
         objectRendererOptions["loudspeakerConfiguration"] = loudspeakerConfiguration
         objectRendererOptions["numberOfInputs"] = numberOfObjects
         objectRendererOptions["numberOfOutputs"] = numArraySpeakers
-- 
2.43.0


From cbfbb0164bf1063eeb6023e029775f180ef713bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:59 +0000
Subject: [PATCH 134/203] fix: unused loudspeakers of
 ObjectToVirtualLoudspeakerRenderer

---
 .../renderers/object_to_virtual_loudspeaker_renderer.py       | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/python/packages/visr_bst/renderers/object_to_virtual_loudspeaker_renderer.py b/src/python/packages/visr_bst/renderers/object_to_virtual_loudspeaker_renderer.py
index 468ebbd..6882bb3 100644
--- a/src/python/packages/visr_bst/renderers/object_to_virtual_loudspeaker_renderer.py
+++ b/src/python/packages/visr_bst/renderers/object_to_virtual_loudspeaker_renderer.py
@@ -205,11 +205,11 @@ class ObjectToVirtualLoudspeakerRenderer( visr.CompositeComponent ):
             loudspeakerRouting = list(range(numArraySpeakers)) # Plain[0,1,...] routing
 
         if numVirtualSpeakers > numArraySpeakers:
-            unconnectedSpeakers = list(set(range(numVirtualSpeakers)) - set(outRoutings) )
+            unconnectedSpeakers = sorted(set(range(numVirtualSpeakers)) - set(loudspeakerRouting) )
             self.nullSource = NullSource( context, "NullSource", self, width=1 )
             self.audioConnection( self.nullSource.audioPort("out"), [0]*len(unconnectedSpeakers),
                                  self.virtualLoudspeakerRenderer.audioPort("audioIn"),
-                                 loudspeakerRouting )
+                                 unconnectedSpeakers )
         self.audioConnection( self.objectRenderer.audioPort("audioOut"), outRoutings,
                              self.virtualLoudspeakerRenderer.audioPort("audioIn"),
                              loudspeakerRouting )
-- 
2.43.0


From bd001226957af37c245b9d41aa8cd632eab2980b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:10 +0000
Subject: [PATCH 135/203] fix: close the JACK client if the construction of the
 interface fails

---
 src/libaudiointerfaces/jack_interface.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/libaudiointerfaces/jack_interface.cpp b/src/libaudiointerfaces/jack_interface.cpp
index 306222a..1a1e9bc 100644
--- a/src/libaudiointerfaces/jack_interface.cpp
+++ b/src/libaudiointerfaces/jack_interface.cpp
@@ -17,7 +17,7 @@
 #include <cassert>
 #include <ciso646> // should not be necessary in C++11, but MSVC is non-compliant here
 #include <iostream>
-
+#include <memory>
 #include <sstream>
 #include <stdexcept>
 #include <string>
@@ -246,6 +246,8 @@ namespace visr
         }
         throw std::invalid_argument( detail::composeMessageString( "JackInterface: Opening of client failed: ", statusMsg.str() ) );
       }
+      // The destructor is not executed if the constructor fails, therefore close the client explicitly in this case.
+      std::unique_ptr<jack_client_t, int(*)(jack_client_t*)> clientGuard( mClient, &jack_client_close );
       if( jack_set_process_callback( mClient, &Impl::processCallbackFunction, this ) != 0 )
       {
         throw std::logic_error( "JackInterface: Error registering process callback." );
@@ -276,6 +278,7 @@ namespace visr
       {
         throw std::logic_error( "JackInterface: The sample rate of the server differs from the requested sample rate of the client." );
       }
+      clientGuard.release();
     }
     
     JackInterface::Impl::~Impl()
-- 
2.43.0


From 51332ccc746c8da0bc37452d4083bb7de0a506e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:10 +0000
Subject: [PATCH 136/203] fix: reject JACK port configurations that name too
 many ports instead of writing beyond the name lists

---
 src/libaudiointerfaces/jack_interface.cpp | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/libaudiointerfaces/jack_interface.cpp b/src/libaudiointerfaces/jack_interface.cpp
index 1a1e9bc..e24f2d4 100644
--- a/src/libaudiointerfaces/jack_interface.cpp
+++ b/src/libaudiointerfaces/jack_interface.cpp
@@ -763,7 +763,7 @@ namespace visr
         if(indicesStr && baseName){
           rbbl::IndexSequence const inIndices( *indicesStr );
           std::size_t const inNumEntries = inIndices.size( );
-          if(inNumEntries > numPorts)
+          if(globalIdx + inNumEntries > numPorts)
           {
             throw std::invalid_argument( "JackInterface: the number of "+portType+" ports addressed with indices cannot be greater than the requested number of "+portType+" ports" );
           }
@@ -777,7 +777,10 @@ namespace visr
           if(!baseName){
             baseName = portType;
           }
-          
+          if(globalIdx + numPorts > numPorts)
+          {
+            throw std::invalid_argument( "JackInterface: the number of "+portType+" ports cannot be greater than the requested number of "+portType+" ports" );
+          }
           for(std::size_t entryIdx( 0 ); entryIdx < numPorts; ++entryIdx, ++globalIdx)
           {
             std::stringstream str;
@@ -805,8 +808,10 @@ namespace visr
           if(extIndicesStr){
             rbbl::IndexSequence const extInIndices( *extIndicesStr );
             std::size_t const extInNumEntries = extInIndices.size( );
-            
-            
+            if(extGlobalIdx + extInNumEntries > numPorts)
+            {
+              throw std::invalid_argument( "JackInterface: the number of external "+portType+" ports addressed with indices cannot be greater than the requested number of "+portType+" ports" );
+            }
             for( std::size_t extEntryIdx( 0 ); extEntryIdx < extInNumEntries; ++extEntryIdx,++extGlobalIdx )
             {
               std::stringstream str;
@@ -815,7 +820,10 @@ namespace visr
               extPortNames[extGlobalIdx] = str.str();
             }
           }else{
-            
+            if(extGlobalIdx + numPorts > numPorts)
+            {
+              throw std::invalid_argument( "JackInterface: the number of external "+portType+" ports cannot be greater than the requested number of "+portType+" ports" );
+            }
             for( std::size_t extEntryIdx( 0 ); extEntryIdx < numPorts; ++extEntryIdx,++extGlobalIdx )
             {
               std::stringstream str;
-- 
2.43.0


From 945f0e58b1d51748312ed778a01cbb5a0f1b97d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:10 +0000
Subject: [PATCH 137/203] fix: obey the autoconnect setting of the capture and
 playback sections of a JACK configuration

---
 src/libaudiointerfaces/jack_interface.cpp | 2 +-
 src/libaudiointerfaces/jack_interface.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libaudiointerfaces/jack_interface.cpp b/src/libaudiointerfaces/jack_interface.cpp
index e24f2d4..c52b802 100644
--- a/src/libaudiointerfaces/jack_interface.cpp
+++ b/src/libaudiointerfaces/jack_interface.cpp
@@ -718,7 +718,7 @@ namespace visr
     void JackInterface::Config::loadPortConfig(boost::optional<boost::property_tree::ptree> tree,
                                                std::vector< std::string > & portNames, std::vector< std::string > & extPortNames,
                                                std::size_t numPorts,
-                                               bool autoConn,
+                                               bool & autoConn,
                                                std::string const & portType )
     {
       
diff --git a/src/libaudiointerfaces/jack_interface.hpp b/src/libaudiointerfaces/jack_interface.hpp
index 7a52fea..c85cfe5 100644
--- a/src/libaudiointerfaces/jack_interface.hpp
+++ b/src/libaudiointerfaces/jack_interface.hpp
@@ -34,7 +34,7 @@ namespace audiointerfaces
                           std::vector< std::string > &portNames,
                           std::vector< std::string > & extPortNames,
                           std::size_t numPorts,
-                          bool autoConn,
+                          bool & autoConn,
                           std::string const & portType );
       std::string mClientName;
       std::string mInExtClientName;
-- 
2.43.0


From a8bb9f6fa295b019337669e66eaacd489b4b2a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:10 +0000
Subject: [PATCH 138/203] fix: use the port indices of a JACK configuration
 also with the default port name

---
 src/libaudiointerfaces/jack_interface.cpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/libaudiointerfaces/jack_interface.cpp b/src/libaudiointerfaces/jack_interface.cpp
index c52b802..5e2f13b 100644
--- a/src/libaudiointerfaces/jack_interface.cpp
+++ b/src/libaudiointerfaces/jack_interface.cpp
@@ -758,9 +758,9 @@ namespace visr
         port = str;
       }
       for(boost::property_tree::ptree::value_type &pconf : port){
-        baseName = pconf.second.get_optional<std::string>( "basename" );
+        baseName = pconf.second.get<std::string>( "basename", portType );
         indicesStr = pconf.second.get_optional<std::string>( "indices" );
-        if(indicesStr && baseName){
+        if(indicesStr){
           rbbl::IndexSequence const inIndices( *indicesStr );
           std::size_t const inNumEntries = inIndices.size( );
           if(globalIdx + inNumEntries > numPorts)
@@ -774,9 +774,6 @@ namespace visr
             portNames[globalIdx] = str.str();
           }
         }else{
-          if(!baseName){
-            baseName = portType;
-          }
           if(globalIdx + numPorts > numPorts)
           {
             throw std::invalid_argument( "JackInterface: the number of "+portType+" ports cannot be greater than the requested number of "+portType+" ports" );
-- 
2.43.0


From 065aebac2a9043e8a8567c6cb22ca74deecd37e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:10 +0000
Subject: [PATCH 139/203] fix: do not carry over the external port settings
 from one JACK port entry to the next

---
 src/libaudiointerfaces/jack_interface.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/libaudiointerfaces/jack_interface.cpp b/src/libaudiointerfaces/jack_interface.cpp
index 5e2f13b..902f3ff 100644
--- a/src/libaudiointerfaces/jack_interface.cpp
+++ b/src/libaudiointerfaces/jack_interface.cpp
@@ -725,10 +725,6 @@ namespace visr
       boost::optional<bool> autoConnect;
       boost::optional<std::string> baseName;
       boost::optional<std::string> indicesStr;
-      boost::optional<std::string> extBaseName;
-      boost::optional<std::string> extIndicesStr;
-      boost::optional<std::string> extClient;
-      
       boost::optional<boost::property_tree::ptree> extPort;
       boost::property_tree::ptree port;
       
@@ -788,6 +784,10 @@ namespace visr
         
         extPort = pconf.second.get_child_optional("externalport");
         if(autoConn){
+          // These settings must not be carried over from one port entry to the next.
+          boost::optional<std::string> extBaseName;
+          boost::optional<std::string> extIndicesStr;
+          boost::optional<std::string> extClient;
           if(extPort){
             extClient = (*extPort).get_optional<std::string>( "client" );
             extBaseName = (*extPort).get_optional<std::string>( "portname" );
-- 
2.43.0


From 7076a589483bcb1b4dfbbbf071b8ab67e653fba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:10 +0000
Subject: [PATCH 140/203] fix: stop using the JACK ports before they are
 unregistered on a restart

---
 src/libaudiointerfaces/jack_interface.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libaudiointerfaces/jack_interface.cpp b/src/libaudiointerfaces/jack_interface.cpp
index 902f3ff..c6be44c 100644
--- a/src/libaudiointerfaces/jack_interface.cpp
+++ b/src/libaudiointerfaces/jack_interface.cpp
@@ -496,9 +496,9 @@ namespace visr
     {
       if( mInitialised )
       {
+        mInitialised = false; // The process callback must not access the ports from here on.
         disconnectPorts( mVerbosePortConnections );
         unregisterPorts();
-        mInitialised = false;
       }
       int const res = jack_activate( mClient );
       if( res != 0 )
-- 
2.43.0


From a956b435a22e7232437c4e7bda22d22a7eea90df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:30 +0000
Subject: [PATCH 141/203] fix: include the capture ports in the uniqueness
 check of JACK port names

---
 src/libaudiointerfaces/jack_interface.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libaudiointerfaces/jack_interface.cpp b/src/libaudiointerfaces/jack_interface.cpp
index c6be44c..5efa8e5 100644
--- a/src/libaudiointerfaces/jack_interface.cpp
+++ b/src/libaudiointerfaces/jack_interface.cpp
@@ -190,7 +190,7 @@ namespace visr
       config.loadPortConfig(ptree, config.mPlaybackPortNames, mOutExternalPortNames, mNumPlaybackChannels, config.mOutAutoConnect, "out_" );
 
       // Check port name uniqueness (over capture and playback.
-      auto allPortNames( mCapturePortNames );
+      auto allPortNames( config.mCapturePortNames );
       allPortNames.insert( allPortNames.end(), config.mPlaybackPortNames.begin(),config.mPlaybackPortNames.end() );
       std::sort(allPortNames.begin(),allPortNames.end());
       auto const adjIt = std::adjacent_find(allPortNames.begin(), allPortNames.end());
-- 
2.43.0


From c68f5d2a42289d1812da73f74c1d5a0edad7b6e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:23 +0000
Subject: [PATCH 142/203] fix: close the PortAudio stream on destruction
 instead of on every stop

---
 src/libaudiointerfaces/portaudio_interface.cpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/libaudiointerfaces/portaudio_interface.cpp b/src/libaudiointerfaces/portaudio_interface.cpp
index 5037a75..76666bc 100644
--- a/src/libaudiointerfaces/portaudio_interface.cpp
+++ b/src/libaudiointerfaces/portaudio_interface.cpp
@@ -414,6 +414,11 @@ namespace // unnamed
   PortaudioInterface::Impl::~Impl()
   {
     PaError ret;
+    // Close the stream (this stops it if it is still running).
+    if( (ret = Pa_CloseStream( mStream )) != paNoError )
+    {
+      std::cerr << "PortaudioInterface: Closing of audio stream failed." << std::endl;
+    }
     // Shutdown the portaudio library.
     if( (ret = Pa_Terminate( )) != paNoError )
     {
@@ -459,17 +464,13 @@ namespace // unnamed
   void PortaudioInterface::Impl::stop()
   {
     // Todo: do we need an internal state representation and checking?
-    // Note: Consider whether PaAbortStream or Pa_CloseStream would make sense in some circumstances.
-    PaError ret = Pa_StopStream( mStream );
+    // Note: Consider whether PaAbortStream would make sense in some circumstances.
+    // The stream is closed in the destructor, thus it can be restarted.
+    PaError const ret = Pa_StopStream( mStream );
     if( ret != paNoError )
     {
       throw std::runtime_error( "PortaudioInterface: Stopping of audio stream failed." );
     }
-    ret = Pa_CloseStream( mStream );
-    if( ret != paNoError )
-    {
-      throw std::runtime_error( "PortaudioInterface: Closing of audio stream failed." );
-    }
   }
   
   bool PortaudioInterface::Impl::registerCallback( AudioCallback callback, void* userData )
-- 
2.43.0


From 69bef206c773db178e125bc55b6982cd9312f0e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:23 +0000
Subject: [PATCH 143/203] fix: terminate PortAudio if the construction of the
 interface fails

---
 src/libaudiointerfaces/portaudio_interface.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/libaudiointerfaces/portaudio_interface.cpp b/src/libaudiointerfaces/portaudio_interface.cpp
index 76666bc..dd3314b 100644
--- a/src/libaudiointerfaces/portaudio_interface.cpp
+++ b/src/libaudiointerfaces/portaudio_interface.cpp
@@ -339,6 +339,12 @@ namespace // unnamed
       char const * msg = Pa_GetErrorText( ret );
       throw std::runtime_error( visr::detail::composeMessageString( "Initialisation of PortAudio library failed: ", msg, "." ) );
     }
+    // The destructor is not executed if the constructor fails, therefore match the call to Pa_Initialize() explicitly in this case.
+    struct TerminateGuard
+    {
+      ~TerminateGuard() { if( mActive ) { Pa_Terminate(); } }
+      bool mActive{ true };
+    } terminateGuard;
     
     PaHostApiTypeId apiType;
     try
@@ -409,6 +415,7 @@ namespace // unnamed
       throw std::runtime_error( std::string("PortaudioInterface: Opening of audio stream failed: ")
                                + Pa_GetErrorText( ret ) );
     }
+    terminateGuard.mActive = false;
   }
   
   PortaudioInterface::Impl::~Impl()
-- 
2.43.0


From 7e8506b6c1984b2686c0276b76806d7963a2d416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:23 +0000
Subject: [PATCH 144/203] fix: reject unsupported PortAudio sample formats on
 construction instead of throwing out of the audio callback

---
 src/libaudiointerfaces/portaudio_interface.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/libaudiointerfaces/portaudio_interface.cpp b/src/libaudiointerfaces/portaudio_interface.cpp
index dd3314b..e7ab7a0 100644
--- a/src/libaudiointerfaces/portaudio_interface.cpp
+++ b/src/libaudiointerfaces/portaudio_interface.cpp
@@ -319,6 +319,10 @@ namespace // unnamed
     
     PortaudioInterface::Config config = parseSpecificConf(conf);
     mSampleFormat = config.mSampleFormat;
+    if( mSampleFormat != Config::SampleFormat::float32Bit )
+    {
+      throw std::invalid_argument( "At the moment, the portaudio interface supports only the sample type float32." );
+    }
     mInterleaved = config.mInterleaved;
     mHostApiName = config.mHostApi;
     
-- 
2.43.0


From 0dbff7b221d59e04127ba59af9e1a70536709cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:23 +0000
Subject: [PATCH 145/203] fix: allow PortAudio interfaces without capture or
 without playback channels

---
 .../portaudio_interface.cpp                   | 23 +++++++++++--------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/libaudiointerfaces/portaudio_interface.cpp b/src/libaudiointerfaces/portaudio_interface.cpp
index e7ab7a0..ac324e3 100644
--- a/src/libaudiointerfaces/portaudio_interface.cpp
+++ b/src/libaudiointerfaces/portaudio_interface.cpp
@@ -376,14 +376,17 @@ namespace // unnamed
       throw std::logic_error( "PortAudioInterface: The returned API index exceeds the number of APIs" );
     }
 
-    PaDeviceIndex const inDeviceIdx = findDevice(config.mInputDeviceName,
+    // PortAudio denotes an unused direction by a missing parameter structure, not by a channel count of zero.
+    bool const useInput = mNumCaptureChannels > 0;
+    bool const useOutput = mNumPlaybackChannels > 0;
+    PaDeviceIndex const inDeviceIdx = useInput ? findDevice(config.mInputDeviceName,
       hostApiIdx,
       mNumCaptureChannels,
-      true /*isInput*/);
-    PaDeviceIndex const outDeviceIdx = findDevice(config.mOutputDeviceName,
+      true /*isInput*/) : paNoDevice;
+    PaDeviceIndex const outDeviceIdx = useOutput ? findDevice(config.mOutputDeviceName,
       hostApiIdx,
       mNumPlaybackChannels,
-      false /*isInput*/ );
+      false /*isInput*/ ) : paNoDevice;
 
     PaSampleFormat const cPaSampleFormat = translateSampleFormat( mSampleFormat, mInterleaved );
     
@@ -392,23 +395,25 @@ namespace // unnamed
     inputParameters.device = inDeviceIdx;
     inputParameters.channelCount = static_cast<int>(mNumCaptureChannels);
     inputParameters.sampleFormat = cPaSampleFormat;
-    inputParameters.suggestedLatency = Pa_GetDeviceInfo( inDeviceIdx )->defaultLowInputLatency;
+    inputParameters.suggestedLatency = useInput ? Pa_GetDeviceInfo( inDeviceIdx )->defaultLowInputLatency : 0.0;
     inputParameters.hostApiSpecificStreamInfo = nullptr;
     
     outputParameters.device = outDeviceIdx;
     outputParameters.channelCount = static_cast<int>(mNumPlaybackChannels);
     outputParameters.sampleFormat = cPaSampleFormat;
-    outputParameters.suggestedLatency = Pa_GetDeviceInfo( outDeviceIdx )->defaultLowInputLatency;
+    outputParameters.suggestedLatency = useOutput ? Pa_GetDeviceInfo( outDeviceIdx )->defaultLowInputLatency : 0.0;
     outputParameters.hostApiSpecificStreamInfo = nullptr;
-    ret = Pa_IsFormatSupported( &inputParameters, &outputParameters,
+    PaStreamParameters const * const inputParametersPtr = useInput ? &inputParameters : nullptr;
+    PaStreamParameters const * const outputParametersPtr = useOutput ? &outputParameters : nullptr;
+    ret = Pa_IsFormatSupported( inputParametersPtr, outputParametersPtr,
                                static_cast<double>(mSampleRate) );
     if( ret != paFormatIsSupported )
     {
       throw std::invalid_argument( std::string("The chosen stream format is not supported by the portaudio interface: ") + Pa_GetErrorText( ret ) );
     }
     ret = Pa_OpenStream( &mStream,
-                        &inputParameters,
-                        &outputParameters,
+                        inputParametersPtr,
+                        outputParametersPtr,
                         static_cast<double>(mSampleRate),
                         static_cast<unsigned long>(mPeriodSize), // cast to avoid compiler warning
                         paNoFlag, // TODO: decide whether we want to optionally disable clipping or dithering
-- 
2.43.0


From 8e64096f186bab0b5233da002cb94ee44e1b7a5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:23 +0000
Subject: [PATCH 146/203] fix: use the output latency of a PortAudio output
 device

---
 src/libaudiointerfaces/portaudio_interface.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libaudiointerfaces/portaudio_interface.cpp b/src/libaudiointerfaces/portaudio_interface.cpp
index ac324e3..7df4baa 100644
--- a/src/libaudiointerfaces/portaudio_interface.cpp
+++ b/src/libaudiointerfaces/portaudio_interface.cpp
@@ -401,7 +401,7 @@ namespace // unnamed
     outputParameters.device = outDeviceIdx;
     outputParameters.channelCount = static_cast<int>(mNumPlaybackChannels);
     outputParameters.sampleFormat = cPaSampleFormat;
-    outputParameters.suggestedLatency = useOutput ? Pa_GetDeviceInfo( outDeviceIdx )->defaultLowInputLatency : 0.0;
+    outputParameters.suggestedLatency = useOutput ? Pa_GetDeviceInfo( outDeviceIdx )->defaultLowOutputLatency : 0.0;
     outputParameters.hostApiSpecificStreamInfo = nullptr;
     PaStreamParameters const * const inputParametersPtr = useInput ? &inputParameters : nullptr;
     PaStreamParameters const * const outputParametersPtr = useOutput ? &outputParameters : nullptr;
-- 
2.43.0


From 57ede53e2b8225525ba76110964e8de9557e5f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:23 +0000
Subject: [PATCH 147/203] fix: choose the best matching PortAudio device of the
 requested direction

---
 src/libaudiointerfaces/portaudio_interface.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/libaudiointerfaces/portaudio_interface.cpp b/src/libaudiointerfaces/portaudio_interface.cpp
index 7df4baa..4f4a9f5 100644
--- a/src/libaudiointerfaces/portaudio_interface.cpp
+++ b/src/libaudiointerfaces/portaudio_interface.cpp
@@ -13,6 +13,7 @@
 #include <portaudio.h>
 
 #include <ciso646> // should not be necessary in C++11, but MSVC is non-compliant here
+#include <cstring>
 #include <iostream>
 #include <map>
 #include <sstream>
@@ -237,6 +238,7 @@ namespace // unnamed
       else
       {
         PaDeviceIndex const numDevices = hostApiInfo->deviceCount;
+        std::size_t matchLength{ 0 };
         {
           for (PaDeviceIndex idx(0); idx < numDevices; ++idx)
           {
@@ -245,10 +247,14 @@ namespace // unnamed
             // Compare only up to the length of the device name returned by PortAudio.
             // A device name is considered as matching if it's equal up to that length.
             // This is done because PortAudio sometimes truncates its device names.
-            if (std::strncmp(name.c_str(), info->name, std::strlen(info->name) ) == 0)
+            // If several device names match, the longest one is used.
+            std::size_t const nameLength = std::strlen(info->name);
+            if( (isInput ? info->maxInputChannels : info->maxOutputChannels) >= 1
+              and nameLength > matchLength
+              and std::strncmp(name.c_str(), info->name, nameLength ) == 0 )
             {
               deviceIdx = globalIdx;
-              break;
+              matchLength = nameLength;
             }
           }
         }
-- 
2.43.0


From 34b87e4e74cb2c0c037f95331e7e24040a76312e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:59 +0000
Subject: [PATCH 148/203] fix: report errors in an option file as a parse
 failure instead of throwing

---
 src/libapputilities/options.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/libapputilities/options.cpp b/src/libapputilities/options.cpp
index 565a76e..47ce02d 100644
--- a/src/libapputilities/options.cpp
+++ b/src/libapputilities/options.cpp
@@ -86,7 +86,15 @@ Options::ParseResult Options::parse( int argc, char const * const * argv, std::o
     std::vector<std::string> args;
     std::copy(tok.begin(), tok.end(), std::back_inserter(args));
     // Parse the file and store the options
-    store(boost::program_options::command_line_parser(args).options(mDescription).run(), mVariablesMap);
+    try
+    {
+      store(boost::program_options::command_line_parser(args).options(mDescription).run(), mVariablesMap);
+    }
+    catch( std::exception const & ex )
+    {
+      errMsg << ex.what();
+      return ParseResult::Failure;
+    }
   }
 
   if( getOption<bool>( "help" ) )
-- 
2.43.0


From a0a90af3a3f6711f69769ab1cfc0cef0e913fd01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:59 +0000
Subject: [PATCH 149/203] fix: accept positional command line options

---
 src/libapputilities/options.cpp | 13 +++++++++----
 src/libapputilities/options.hpp |  4 +++-
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/libapputilities/options.cpp b/src/libapputilities/options.cpp
index 47ce02d..54024e6 100644
--- a/src/libapputilities/options.cpp
+++ b/src/libapputilities/options.cpp
@@ -51,10 +51,15 @@ Options::ParseResult Options::parse( int argc, char const * const * argv, std::o
 {
   try
   {
-    boost::program_options::store( boost::program_options::command_line_parser( argc, argv).options( mDescription )
-                                   .extra_parser(at_option_parser).run(), // Register transformation @filename->--option-file=filename syntax
-								   // (taken from Boost documentation example.
-								   mVariablesMap );
+    boost::program_options::command_line_parser parser( argc, argv );
+    parser.options( mDescription );
+    parser.extra_parser( at_option_parser ); // Register transformation @filename->--option-file=filename syntax
+                                             // (taken from Boost documentation example.)
+    if( mPositionalDescription.max_total_count() > 0 )
+    {
+      parser.positional( mPositionalDescription );
+    }
+    boost::program_options::store( parser.run(), mVariablesMap );
     notify( mVariablesMap );
   }
   catch( std::exception const & ex )
diff --git a/src/libapputilities/options.hpp b/src/libapputilities/options.hpp
index 6d3ecb4..7a24969 100644
--- a/src/libapputilities/options.hpp
+++ b/src/libapputilities/options.hpp
@@ -103,7 +103,9 @@ template<typename DataType >
 inline void Options::registerPositionalOption( char const * optionName, int position, char const * description )
 {
   registerOption< DataType >( optionName, description );
-  mPositionalDescription.add( optionName, position );
+  // The option is referred to by its long name, i.e., without the optional short form.
+  std::string const name( optionName );
+  mPositionalDescription.add( name.substr( 0, name.find( ',' ) ).c_str(), position );
 }
 
 } // namespace apputilities
-- 
2.43.0


From 8fba28cad99f234c5583bfbab4deef76a58b21c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:59 +0000
Subject: [PATCH 150/203] fix: detect overlapping filter file index ranges

---
 src/apps/matrix_convolver/init_filter_matrix.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/apps/matrix_convolver/init_filter_matrix.cpp b/src/apps/matrix_convolver/init_filter_matrix.cpp
index b730ff1..ce0e446 100644
--- a/src/apps/matrix_convolver/init_filter_matrix.cpp
+++ b/src/apps/matrix_convolver/init_filter_matrix.cpp
@@ -134,7 +134,7 @@ void initFilterMatrix( std::string const & filterList,
     [&startIndex]( std::size_t a, std::size_t b ) { return startIndex[a] < startIndex[b]; } );
   for( std::size_t runIdx( 1 ); runIdx < numFilterFiles; ++runIdx )
   {
-    if( startIndex[orderByStartIndex[runIdx] - 1] > endIndex[orderByStartIndex[runIdx]] ) // "==" is legal due to the one-past-end convention of endIndex
+    if( startIndex[orderByStartIndex[runIdx]] < endIndex[orderByStartIndex[runIdx - 1]] ) // "==" is legal due to the one-past-end convention of endIndex
     {
       throw std::invalid_argument( "MatrixConvolver::initFilter(): The index ranges of the filters overlap." );
     }
-- 
2.43.0


From 9d56595cd1345c38e56a010b7167c6422aba8680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:59 +0000
Subject: [PATCH 151/203] fix: size the filter matrix by the largest filter
 index of all files

---
 src/apps/matrix_convolver/init_filter_matrix.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/apps/matrix_convolver/init_filter_matrix.cpp b/src/apps/matrix_convolver/init_filter_matrix.cpp
index ce0e446..e1a8f30 100644
--- a/src/apps/matrix_convolver/init_filter_matrix.cpp
+++ b/src/apps/matrix_convolver/init_filter_matrix.cpp
@@ -139,7 +139,7 @@ void initFilterMatrix( std::string const & filterList,
       throw std::invalid_argument( "MatrixConvolver::initFilter(): The index ranges of the filters overlap." );
     }
   }
-  std::size_t const maxUsedIndex = endIndex.back(); // one past end
+  std::size_t const maxUsedIndex = *std::max_element( endIndex.begin(), endIndex.end() ); // one past end
   if( maxFilterEntries != std::numeric_limits<std::size_t>::max( ) // special value? 
     and( maxUsedIndex > maxFilterEntries ) )
   {
-- 
2.43.0


From 9eea98de5904cc10dbf028b4829c69918ce54a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:21 +0000
Subject: [PATCH 152/203] fix: reject a feedthrough with outputs but no inputs
 instead of looping forever

---
 src/apps/feedthrough/signal_flow.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/apps/feedthrough/signal_flow.cpp b/src/apps/feedthrough/signal_flow.cpp
index 7343679..266d866 100644
--- a/src/apps/feedthrough/signal_flow.cpp
+++ b/src/apps/feedthrough/signal_flow.cpp
@@ -6,6 +6,8 @@
 
 // #include <algorithm>
 #include <array>
+#include <ciso646>
+#include <stdexcept>
 #include <vector>
 
 namespace visr
@@ -26,6 +28,10 @@ Feedthrough::Feedthrough( SignalFlowContext & context,
  , mTerminator( context, "Terminator", this,
 		inputChannels > outputChannels ? inputChannels - outputChannels : 0 )
 {
+  if( inputChannels == 0 and outputChannels > 0 )
+  {
+    throw std::invalid_argument( "Feedthrough: Outputs require at least one input channel." );
+  }
   if( inputChannels > outputChannels )
   {
     audioConnection( mInput, ChannelRange( 0, outputChannels ),
-- 
2.43.0


From b7900301dd75c7c98eb638f4ef8dd26e6e1e5c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:21 +0000
Subject: [PATCH 153/203] fix: report arrays with more loudspeakers than
 diffusion filters in the renderer applications

---
 src/apps/baseline_renderer/main.cpp | 4 ++++
 src/apps/visr_renderer/main.cpp     | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/apps/baseline_renderer/main.cpp b/src/apps/baseline_renderer/main.cpp
index e4b2f52..6923e31 100644
--- a/src/apps/baseline_renderer/main.cpp
+++ b/src/apps/baseline_renderer/main.cpp
@@ -142,6 +142,10 @@ int main( int argc, char const * const * argv )
 #include "files/quasiAllpassFIR_f64_n63_initializer_list.txt"
                                                         , cVectorAlignmentSamples );
         
+        if( numberOfLoudspeakers > diffusionFiltersInFile )
+        {
+            throw std::invalid_argument( "The number of loudspeakers exceeds the number of available diffusion filters." );
+        }
         // Create a second filter matrix that matches the number of required filters.
         efl::BasicMatrix<SampleType> diffusionCoeffs( numberOfLoudspeakers, diffusionFilterLength, cVectorAlignmentSamples );
         for( std::size_t idx( 0 ); idx < diffusionCoeffs.numberOfRows( ); ++idx )
diff --git a/src/apps/visr_renderer/main.cpp b/src/apps/visr_renderer/main.cpp
index 982443b..db85ed5 100644
--- a/src/apps/visr_renderer/main.cpp
+++ b/src/apps/visr_renderer/main.cpp
@@ -146,6 +146,10 @@ int main( int argc, char const * const * argv )
 #include "files/quasiAllpassFIR_f64_n63_initializer_list.txt"
                                                         , cVectorAlignmentSamples );
         
+        if( numberOfLoudspeakers > diffusionFiltersInFile )
+        {
+            throw std::invalid_argument( "The number of loudspeakers exceeds the number of available diffusion filters." );
+        }
         // Create a second filter matrix that matches the number of required filters.
         efl::BasicMatrix<SampleType> diffusionCoeffs( numberOfLoudspeakers, diffusionFilterLength, cVectorAlignmentSamples );
         for( std::size_t idx( 0 ); idx < diffusionCoeffs.numberOfRows( ); ++idx )
-- 
2.43.0


From 0bce16f2e73356608fef468fc8dc330ba83b3a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:21 +0000
Subject: [PATCH 154/203] fix: use a valid sample format in the time-frequency
 feedthrough application

---
 src/apps/time_frequency_feedthrough/main.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/apps/time_frequency_feedthrough/main.cpp b/src/apps/time_frequency_feedthrough/main.cpp
index 89f43e2..4b17d07 100644
--- a/src/apps/time_frequency_feedthrough/main.cpp
+++ b/src/apps/time_frequency_feedthrough/main.cpp
@@ -51,7 +51,7 @@ int main( int argc, char const * const * argv )
         
         type = "Jack";
 #else
-        specConf = "{\"sampleformat\": 8, \"interleaved\": \"false\", \"hostapi\" : \"default\"}";
+        specConf = "{\"sampleformat\": \"float32Bit\", \"interleaved\": \"false\", \"hostapi\" : \"default\"}";
         type = "PortAudio";
 #endif
         
-- 
2.43.0


From a52279808587aaa222db9da12e6896759ef99773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:21 +0000
Subject: [PATCH 155/203] fix: connect the tracking receiver of the VISR
 renderer

---
 src/libsignalflowspython/visr_renderer.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libsignalflowspython/visr_renderer.cpp b/src/libsignalflowspython/visr_renderer.cpp
index 309f923..50f7666 100644
--- a/src/libsignalflowspython/visr_renderer.cpp
+++ b/src/libsignalflowspython/visr_renderer.cpp
@@ -75,6 +75,7 @@ VisrRenderer::VisrRenderer( SignalFlowContext const & context,
     mTrackingReceiver.reset( new rcl::UdpReceiver( context, "TrackingReceiver", this, 8888, rcl::UdpReceiver::Mode::Synchronous) );
     mTrackingPositionDecoder.reset( new rcl::PositionDecoder( context, "TrackingPositionDecoder", this ) );
 
+    parameterConnection( mTrackingReceiver->parameterPort("messageOutput"), mTrackingPositionDecoder->parameterPort("messageInput") );
     parameterConnection( mTrackingPositionDecoder->parameterPort("positionOutput"), mCoreRenderer.parameterPort("trackingPositionInput") );
   }
 }
-- 
2.43.0


From 25aca85b5b801ed6df2a7518b74935c7447bf32a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:01 +0000
Subject: [PATCH 156/203] fix: derive the default number of renderer outputs
 from the largest channel number, as documented

---
 src/apps/baseline_renderer/main.cpp | 15 ++++++++++++---
 src/apps/visr_renderer/main.cpp     | 15 ++++++++++++---
 2 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/src/apps/baseline_renderer/main.cpp b/src/apps/baseline_renderer/main.cpp
index 6923e31..0e7c453 100644
--- a/src/apps/baseline_renderer/main.cpp
+++ b/src/apps/baseline_renderer/main.cpp
@@ -75,10 +75,19 @@ int main( int argc, char const * const * argv )
         panning::LoudspeakerArray loudspeakerArray( arrayConfigPath.string() );
 
         const std::size_t numberOfLoudspeakers = loudspeakerArray.getNumRegularSpeakers();
-        const std::size_t numberOfSpeakersAndSubs = numberOfLoudspeakers + loudspeakerArray.getNumSubwoofers();
-        
+
+        // By default, the number of outputs is the largest (one-offset) channel number used in the array configuration.
+        std::size_t maxOutputChannel = 0;
+        for( std::size_t idx( 0 ); idx < numberOfLoudspeakers; ++idx )
+        {
+            maxOutputChannel = std::max( maxOutputChannel, static_cast<std::size_t>(loudspeakerArray.getSpeakerChannel( idx )) );
+        }
+        for( std::size_t idx( 0 ); idx < loudspeakerArray.getNumSubwoofers(); ++idx )
+        {
+            maxOutputChannel = std::max( maxOutputChannel, static_cast<std::size_t>(loudspeakerArray.getSubwooferChannel( idx )) );
+        }
         const std::size_t numberOfOutputChannels
-        = cmdLineOptions.getDefaultedOption<std::size_t>("output-channels", numberOfSpeakersAndSubs);
+        = cmdLineOptions.getDefaultedOption<std::size_t>("output-channels", maxOutputChannel);
         
         const std::size_t numberOfObjects = cmdLineOptions.getOption<std::size_t>("input-channels");
         const std::size_t periodSize = cmdLineOptions.getDefaultedOption<std::size_t>("period", 1024);
diff --git a/src/apps/visr_renderer/main.cpp b/src/apps/visr_renderer/main.cpp
index db85ed5..283f9c7 100644
--- a/src/apps/visr_renderer/main.cpp
+++ b/src/apps/visr_renderer/main.cpp
@@ -78,10 +78,19 @@ int main( int argc, char const * const * argv )
         panning::LoudspeakerArray loudspeakerArray( arrayConfigPath.string() );
 
         const std::size_t numberOfLoudspeakers = loudspeakerArray.getNumRegularSpeakers();
-        const std::size_t numberOfSpeakersAndSubs = numberOfLoudspeakers + loudspeakerArray.getNumSubwoofers();
-        
+
+        // By default, the number of outputs is the largest (one-offset) channel number used in the array configuration.
+        std::size_t maxOutputChannel = 0;
+        for( std::size_t idx( 0 ); idx < numberOfLoudspeakers; ++idx )
+        {
+            maxOutputChannel = std::max( maxOutputChannel, static_cast<std::size_t>(loudspeakerArray.getSpeakerChannel( idx )) );
+        }
+        for( std::size_t idx( 0 ); idx < loudspeakerArray.getNumSubwoofers(); ++idx )
+        {
+            maxOutputChannel = std::max( maxOutputChannel, static_cast<std::size_t>(loudspeakerArray.getSubwooferChannel( idx )) );
+        }
         const std::size_t numberOfOutputChannels
-        = cmdLineOptions.getDefaultedOption<std::size_t>("output-channels", numberOfSpeakersAndSubs);
+        = cmdLineOptions.getDefaultedOption<std::size_t>("output-channels", maxOutputChannel);
         
         const std::size_t numberOfObjects = cmdLineOptions.getOption<std::size_t>("input-channels");
         const std::size_t periodSize = cmdLineOptions.getDefaultedOption<std::size_t>("period", 1024);
-- 
2.43.0


From b4a5efaab1ba7b22625d202c4c7d4619fd76eea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:01 +0000
Subject: [PATCH 157/203] fix: use the documented default sampling frequency in
 the renderer applications

---
 src/apps/baseline_renderer/main.cpp | 2 +-
 src/apps/visr_renderer/main.cpp     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/apps/baseline_renderer/main.cpp b/src/apps/baseline_renderer/main.cpp
index 0e7c453..ab4dce5 100644
--- a/src/apps/baseline_renderer/main.cpp
+++ b/src/apps/baseline_renderer/main.cpp
@@ -92,7 +92,7 @@ int main( int argc, char const * const * argv )
         const std::size_t numberOfObjects = cmdLineOptions.getOption<std::size_t>("input-channels");
         const std::size_t periodSize = cmdLineOptions.getDefaultedOption<std::size_t>("period", 1024);
         const std::size_t numberOfEqSections = cmdLineOptions.getDefaultedOption<std::size_t>("object-eq-sections", 0);
-        const std::size_t samplingRate = cmdLineOptions.getDefaultedOption<std::size_t>("sampling-frequency", 44100);
+        const std::size_t samplingRate = cmdLineOptions.getDefaultedOption<std::size_t>("sampling-frequency", 48000);
         
         const std::string audioBackend = cmdLineOptions.getDefaultedOption<std::string>("audio-backend", "default");
         
diff --git a/src/apps/visr_renderer/main.cpp b/src/apps/visr_renderer/main.cpp
index 283f9c7..3de510d 100644
--- a/src/apps/visr_renderer/main.cpp
+++ b/src/apps/visr_renderer/main.cpp
@@ -95,7 +95,7 @@ int main( int argc, char const * const * argv )
         const std::size_t numberOfObjects = cmdLineOptions.getOption<std::size_t>("input-channels");
         const std::size_t periodSize = cmdLineOptions.getDefaultedOption<std::size_t>("period", 1024);
         const std::size_t numberOfEqSections = cmdLineOptions.getDefaultedOption<std::size_t>("object-eq-sections", 0);
-        const std::size_t samplingRate = cmdLineOptions.getDefaultedOption<std::size_t>("sampling-frequency", 44100);
+        const std::size_t samplingRate = cmdLineOptions.getDefaultedOption<std::size_t>("sampling-frequency", 48000);
         
         const std::string audioBackend = cmdLineOptions.getDefaultedOption<std::string>("audio-backend", "default");
         
-- 
2.43.0


From b64052ba7bdb85d36546495ee2615ee22766cf2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:51 +0000
Subject: [PATCH 158/203] fix: report malformed escape sequences in an option
 file as a parse failure

---
 src/libapputilities/options.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/libapputilities/options.cpp b/src/libapputilities/options.cpp
index 54024e6..0fff66e 100644
--- a/src/libapputilities/options.cpp
+++ b/src/libapputilities/options.cpp
@@ -85,14 +85,15 @@ Options::ParseResult Options::parse( int argc, char const * const * argv, std::o
     // Split the file content
     // Differing from the boost example, we use an escaped_list_separator to allow quoted strings with spaces.
     // Also added '=' to the separator chars to allow options as '-i=8' or '--input-channels=8' in the file.
-    boost::escaped_list_separator<char> sep( "\\", " =\n\r", "\"" );
-    std::string sstr = fileContent.str();
-    boost::tokenizer<boost::escaped_list_separator<char> > tok(sstr, sep);
-    std::vector<std::string> args;
-    std::copy(tok.begin(), tok.end(), std::back_inserter(args));
     // Parse the file and store the options
     try
     {
+      boost::escaped_list_separator<char> sep( "\\", " =\n\r", "\"" );
+      std::string sstr = fileContent.str();
+      boost::tokenizer<boost::escaped_list_separator<char> > tok(sstr, sep);
+      std::vector<std::string> args;
+      std::copy(tok.begin(), tok.end(), std::back_inserter(args));
+
       store(boost::program_options::command_line_parser(args).options(mDescription).run(), mVariablesMap);
     }
     catch( std::exception const & ex )
-- 
2.43.0


From d6c6305cb3f5affd0a0b69d9cecc78e12d2c750a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:22 +0000
Subject: [PATCH 159/203] fix: preserve the signal level in the time-frequency
 feedthrough signal flow

---
 src/libsignalflows/time_frequency_feedthrough.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/libsignalflows/time_frequency_feedthrough.cpp b/src/libsignalflows/time_frequency_feedthrough.cpp
index ebc011c..87e985b 100644
--- a/src/libsignalflows/time_frequency_feedthrough.cpp
+++ b/src/libsignalflows/time_frequency_feedthrough.cpp
@@ -17,8 +17,11 @@ TimeFrequencyFeedthrough::TimeFrequencyFeedthrough( SignalFlowContext const & co
  : CompositeComponent( context, name, parent )
 #ifndef JUST_FEEDTHROUGH
   // Use default FFT implementation
- , mForwardTransform( context, "ForwardTransform", this, numberOfChannels, dftSize, windowLength, hopSize )
- , mInverseTransform( context, "InverseTransform", this, numberOfChannels, dftSize, hopSize )
+ , mForwardTransform( context, "ForwardTransform", this, numberOfChannels, dftSize, windowLength, hopSize,
+                      "default", rcl::TimeFrequencyTransform::Normalisation::Unitary )
+ // The normalisation has to match that of the forward transform to obtain an overall gain of one.
+ , mInverseTransform( context, "InverseTransform", this, numberOfChannels, dftSize, hopSize,
+                      "default", rcl::TimeFrequencyInverseTransform::Normalisation::Unitary )
 #endif
  , mInput( "input", *this )
  , mOutput( "output", *this )
-- 
2.43.0


From ebaf5f053526fb1dbe456d3c32e23b88d861f1cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:35 +0000
Subject: [PATCH 160/203] fix: register the biquad coefficient and coefficient
 list parameter types, so that they can be sent between components

---
 src/libpml/initialise_parameter_library.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/libpml/initialise_parameter_library.cpp b/src/libpml/initialise_parameter_library.cpp
index 8eec87f..1b973bc 100644
--- a/src/libpml/initialise_parameter_library.cpp
+++ b/src/libpml/initialise_parameter_library.cpp
@@ -33,6 +33,10 @@ namespace pml
 void initialiseParameterLibrary()
 {
   static ParameterRegistrar<
+    BiquadCoefficientParameter<float>,
+    BiquadCoefficientParameter<double>,
+    BiquadCoefficientListParameter<float>,
+    BiquadCoefficientListParameter<double>,
     BiquadParameterMatrix<float>,
     BiquadParameterMatrix<double>,
     FilterRoutingParameter,
-- 
2.43.0


From be2a9655cf9aadbe12d3298ccf9df6ae3fc93505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:49 +0000
Subject: [PATCH 161/203] fix: assigning an object vector to itself keeps its
 objects

---
 src/libobjectmodel/object_vector.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/libobjectmodel/object_vector.cpp b/src/libobjectmodel/object_vector.cpp
index 9854fdc..507ebe4 100644
--- a/src/libobjectmodel/object_vector.cpp
+++ b/src/libobjectmodel/object_vector.cpp
@@ -25,6 +25,10 @@ ObjectVector& ObjectVector::operator=( ObjectVector && rhs ) = default;
 
 void ObjectVector::assign( ObjectVector const & rhs )
 {
+  if( &rhs == this )
+  {
+    return;
+  }
   mObjects.clear();
   for( ObjectContainer::value_type const & v : rhs.mObjects )
   {
-- 
2.43.0


From b5092319f13a76f5a70048fea9a312a003cb7960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:00 +0000
Subject: [PATCH 162/203] fix: the number of frames of a time-frequency value
 without channels is zero instead of a division by zero

---
 src/libpml/time_frequency_parameter.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libpml/time_frequency_parameter.hpp b/src/libpml/time_frequency_parameter.hpp
index 7991510..f6ed1cf 100644
--- a/src/libpml/time_frequency_parameter.hpp
+++ b/src/libpml/time_frequency_parameter.hpp
@@ -131,7 +131,7 @@ public:
   /**
    * Return the number of time/frequency frames in a single TimeFrequencyParameter message.
    */
-  std::size_t numberOfFrames() const { return mData.numberOfRows() / mNumberOfChannels; }
+  std::size_t numberOfFrames() const { return mNumberOfChannels == 0 ? 0 : mData.numberOfRows() / mNumberOfChannels; }
 
   /**
    * Return the stride (in number of complex elements) between successive audio channels within the same frame.
-- 
2.43.0


From ccb8b235883874f351daff7d3fb4210be453e05e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:06 +0000
Subject: [PATCH 163/203] fix: gain and delay vectors refuse initial values of
 the wrong length instead of reading past their end

---
 src/librcl/delay_vector.cpp | 4 ++++
 src/librcl/gain_vector.cpp  | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/librcl/delay_vector.cpp b/src/librcl/delay_vector.cpp
index ae4ea22..368825f 100644
--- a/src/librcl/delay_vector.cpp
+++ b/src/librcl/delay_vector.cpp
@@ -70,6 +70,10 @@ void DelayVector::setup( std::size_t numberOfChannels,
   {
     throw std::invalid_argument( "DelayVector::setup(): The parameter interpolationSteps must be greater or equal than the block size." );
   }
+  if( (initialDelaysSeconds.size() != numberOfChannels) or (initialGainsLinear.size() != numberOfChannels) )
+  {
+    throw std::invalid_argument( "DelayVector::setup(): The number of initial delays or gains does not match the number of channels." );
+  }
   mGainInterpolationCounter = 0;
   mDelayInterpolationCounter = 0;
 
diff --git a/src/librcl/gain_vector.cpp b/src/librcl/gain_vector.cpp
index 1401324..297d649 100644
--- a/src/librcl/gain_vector.cpp
+++ b/src/librcl/gain_vector.cpp
@@ -47,6 +47,10 @@ void GainVector::setup( std::size_t numberOfChannels,
                           bool controlInputs,
                           efl::BasicVector< SampleType > const & initialGainsLinear )
 {
+  if( initialGainsLinear.size() != numberOfChannels )
+  {
+    throw std::invalid_argument( "GainVector::setup(): The number of initial gains does not match the number of channels." );
+  }
   mNumberOfChannels = numberOfChannels;
   mInput.setWidth(numberOfChannels);
   mOutput.setWidth(numberOfChannels);
-- 
2.43.0


From 0fe907e2489c12d21c64ddc8d95544c3c807980e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:17 +0000
Subject: [PATCH 164/203] fix: directories with spaces in their names in Python
 module search paths

---
 src/libpythonsupport/load_module.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/libpythonsupport/load_module.cpp b/src/libpythonsupport/load_module.cpp
index 8dddd3e..a87fd79 100644
--- a/src/libpythonsupport/load_module.cpp
+++ b/src/libpythonsupport/load_module.cpp
@@ -70,7 +70,12 @@ namespace // unnamed
 std::vector<std::string> pathStringToSequence( std::string const & pathString )
 {
   std::vector<std::string> searchPath;
-  boost::algorithm::split( searchPath, pathString, boost::algorithm::is_any_of( ", "), boost::algorithm::token_compress_on );
+  boost::algorithm::split( searchPath, pathString, boost::algorithm::is_any_of( "," ) );
+  // Directory names may contain spaces, remove only those around the list entries.
+  for( auto & str : searchPath )
+  {
+    boost::algorithm::trim( str );
+  }
   // Prune empty entries
   searchPath.erase(std::remove_if( searchPath.begin(), searchPath.end(),
                                   [](std::string const & s){return s.empty(); } ),
@@ -79,7 +84,7 @@ std::vector<std::string> pathStringToSequence( std::string const & pathString )
   {
     if( not exists( boost::filesystem::path(str)) )
     {
-      throw std::invalid_argument( std::string( "loadModule(): module search directory")
+      throw std::invalid_argument( std::string( "loadModule(): module search directory \"")
                                   + str + "\" does not exist." );
     }
   }
-- 
2.43.0


From bf982c617fc406fee85baf0ec5212b8d10c8c66e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:17 +0000
Subject: [PATCH 165/203] fix: search the module path if a separate system path
 is given when loading Python modules

---
 src/libpythonsupport/load_module.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libpythonsupport/load_module.cpp b/src/libpythonsupport/load_module.cpp
index a87fd79..3c3bd68 100644
--- a/src/libpythonsupport/load_module.cpp
+++ b/src/libpythonsupport/load_module.cpp
@@ -47,7 +47,7 @@ pybind11::object loadModule( std::string const & moduleName,
     py::eval<py::eval_statements>( // tell eval we're passing multiple statements
       "import importlib\n"
       "import sys\n"
-      "sys.path += additionalPath\n"
+      "sys.path += [ p for p in modulePath or [] if p not in additionalPath ] + additionalPath\n"
       "new_module = importlib.import_module(moduleName, package=None)\n",
       globals,
       locals);
-- 
2.43.0


From 24af4af422c10f90b89a70090259a04e60c95ddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:10 +0000
Subject: [PATCH 166/203] fix: release Python objects under the interpreter
 lock if the construction of a Python wrapper fails

---
 src/libpythoncomponents/wrapper.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/libpythoncomponents/wrapper.cpp b/src/libpythoncomponents/wrapper.cpp
index c99616a..d322583 100644
--- a/src/libpythoncomponents/wrapper.cpp
+++ b/src/libpythoncomponents/wrapper.cpp
@@ -93,9 +93,13 @@ Wrapper::Wrapper( SignalFlowContext const & context,
                               char const * keywordArguments,
                               char const * moduleSearchPath /*= nullptr*/ )
   : CompositeComponent( context, (std::string(name)+std::string("_wrapper")).c_str(), parent )
-  , mImpl( new Impl( context, name, this, moduleName, componentClassName,
-                    positionalArguments, keywordArguments, moduleSearchPath ) )
-{}
+{
+  // Hold the thread state during the complete construction of the implementation object. If its constructor
+  // throws, the Python objects already created are also released while the thread state is held.
+  pythonsupport::GilEnsureGuard guard;
+  mImpl.reset( new Impl( context, name, this, moduleName, componentClassName,
+                         positionalArguments, keywordArguments, moduleSearchPath ) );
+}
 
 
 Wrapper::Impl::Impl( SignalFlowContext const & context,
-- 
2.43.0


From 5c2c6bdc7cf34d92adb9ecdf54e75e6669c7ac8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:00 +0000
Subject: [PATCH 167/203] fix: report Python callables that return None instead
 of a component when creating a Python wrapper

---
 src/libpythoncomponents/wrapper.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/libpythoncomponents/wrapper.cpp b/src/libpythoncomponents/wrapper.cpp
index d322583..28ee137 100644
--- a/src/libpythoncomponents/wrapper.cpp
+++ b/src/libpythoncomponents/wrapper.cpp
@@ -193,6 +193,10 @@ Wrapper::Impl::Impl( SignalFlowContext const & context,
 
     throw std::runtime_error( detail::composeMessageString("Wrapper: Error casting the Python object of component \"", name, "\" to the C++ base type. Reason: ",ex.what() ) );
   }
+  if( mComponent == nullptr ) // The Python value 'None' is converted to a null pointer.
+  {
+    throw std::runtime_error( detail::composeMessageString("Wrapper: Instantiating the Python object of component \"", name, "\" did not yield a component." ) );
+  }
   impl::ComponentImplementation & compImpl = mComponent->implementation();
   // Collect the audio ports of the contained components, create matching external ports on the outside of 'this;
   // composite component, and connect them. This additional set of connections will be removed by the 'flattening' phase, leaving only an additional level in the full names.
-- 
2.43.0


From 54ab8a79c5cfda42afccc4a2ab32f447212ece21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:19 +0000
Subject: [PATCH 168/203] fix: accept modules specified with a full path in the
 python_runner application

---
 src/apps/python_runner/main.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/apps/python_runner/main.cpp b/src/apps/python_runner/main.cpp
index 6909687..954b464 100644
--- a/src/apps/python_runner/main.cpp
+++ b/src/apps/python_runner/main.cpp
@@ -69,12 +69,17 @@ int main( int argc, char const * const * argv )
         const std::size_t periodSize = cmdLineOptions.getDefaultedOption<std::size_t>( "period", 1024 );
         const std::size_t samplingRate = cmdLineOptions.getDefaultedOption<std::size_t>( "sampling-frequency", 48000 );
 
-        boost::filesystem::path const moduleName( cmdLineOptions.getOption<std::string>( "module-name" ) );
+        boost::filesystem::path moduleName( cmdLineOptions.getOption<std::string>( "module-name" ) );
         std::string const pythonClassName = cmdLineOptions.getOption<std::string>( "python-class-name");
         std::string const objectName = cmdLineOptions.getDefaultedOption<std::string>( "object-name", "PythonFlow" );
         std::string const positionalArgs = cmdLineOptions.getDefaultedOption<std::string>( "positional-arguments", "" );
         std::string const kwArgs = cmdLineOptions.getDefaultedOption<std::string>( "keyword-arguments", "" );
-        boost::filesystem::path const moduleSearchPath = cmdLineOptions.getDefaultedOption<std::string>( "module-search-path", "" );
+        std::string moduleSearchPath = cmdLineOptions.getDefaultedOption<std::string>( "module-search-path", "" );
+        if( moduleName.has_parent_path() ) // Module specified with a full path
+        {
+            moduleSearchPath = moduleName.parent_path().string() + "," + moduleSearchPath;
+            moduleName = moduleName.filename();
+        }
 
         SignalFlowContext const ctxt( periodSize, samplingRate );
         pythoncomponents::Wrapper topLevelComponent( ctxt,
@@ -84,7 +89,7 @@ int main( int argc, char const * const * argv )
                                                      pythonClassName.c_str(),
                                                      positionalArgs.c_str(),
                                                      kwArgs.c_str(),
-                                                     moduleSearchPath.string().c_str() );
+                                                     moduleSearchPath.c_str() );
 
         rrl::AudioSignalFlow flow( topLevelComponent );
 
-- 
2.43.0


From 2ff8c2268d3d406837796020259e0b5f910c8d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:44 +0000
Subject: [PATCH 169/203] fix: write the coordinates of loudspeakers in
 Cartesian array configurations

---
 .../packages/loudspeakerconfig/createArrayConfigFile.py     | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/python/packages/loudspeakerconfig/createArrayConfigFile.py b/src/python/packages/loudspeakerconfig/createArrayConfigFile.py
index 513b40e..1218092 100644
--- a/src/python/packages/loudspeakerconfig/createArrayConfigFile.py
+++ b/src/python/packages/loudspeakerconfig/createArrayConfigFile.py
@@ -399,8 +399,8 @@ def writePositionNode( xmlNode, pos, sphericalPositions, twoDconfig ):
         sphNode.set( "r", str(radius) )
     else:
         cartNode = ET.SubElement( xmlNode, "cart" )
-        cartNode.set( "x", str(round(pos,10)) )
-        cartNode.set( "y", str(round(pos,10)) )
+        cartNode.set( "x", str(round(pos[0],10)) )
+        cartNode.set( "y", str(round(pos[1],10)) )
         if not twoDconfig:
-            cartNode.set( "z", str(pos) )
+            cartNode.set( "z", str(round(pos[2],10)) )
 
-- 
2.43.0


From c3da2e855057b37f2799640e6df38cc879f2f6dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:44 +0000
Subject: [PATCH 170/203] fix: use the labels in an explicitly provided
 triangulation of an array configuration

---
 .../loudspeakerconfig/createArrayConfigFile.py         | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/python/packages/loudspeakerconfig/createArrayConfigFile.py b/src/python/packages/loudspeakerconfig/createArrayConfigFile.py
index 1218092..6afe03d 100644
--- a/src/python/packages/loudspeakerconfig/createArrayConfigFile.py
+++ b/src/python/packages/loudspeakerconfig/createArrayConfigFile.py
@@ -209,12 +209,12 @@ def createArrayConfigFile( outputFileName,
         Lnorm = allLoudspeakers / Lnorms[np.newaxis,:]
 
         hull = ConvexHull( Lnorm.T )
-        triplets = hull.simplices
+        labeledTriplets = [[ allLabels[i] for i in polygon ] for polygon in hull.simplices ]
     else: # Use an existing triplet configuration, which is a list of label triplets.
-        # TODO: Perform checking of the triplets
-        pass
-
-    labeledTriplets = [[ allLabels[i] for i in polygon ] for polygon in triplets ]
+        labeledTriplets = [ list(polygon) for polygon in triplets ]
+        unknownLabels = [ label for polygon in labeledTriplets for label in polygon if label not in allLabels ]
+        if len( unknownLabels ) > 0:
+            raise ValueError( "The labels '%s' in the argument 'triplets' do not denote existing loudspeakers." % str(unknownLabels) )
 
     if lspDelays is not None:
         if len(lspDelays) != numRealLoudspeakers:
-- 
2.43.0


From 7aac6551999055f298e5ea874cecdd2cb7ab642f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:44 +0000
Subject: [PATCH 171/203] fix: write the names of subwoofers in array
 configurations

---
 src/python/packages/loudspeakerconfig/createArrayConfigFile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/packages/loudspeakerconfig/createArrayConfigFile.py b/src/python/packages/loudspeakerconfig/createArrayConfigFile.py
index 6afe03d..38d1993 100644
--- a/src/python/packages/loudspeakerconfig/createArrayConfigFile.py
+++ b/src/python/packages/loudspeakerconfig/createArrayConfigFile.py
@@ -348,7 +348,7 @@ def createArrayConfigFile( outputFileName,
         for idx, subCfg in enumerate( subwooferConfig ):
             subNode = ET.SubElement( xmlRoot, "subwoofer" )
             subName = subCfg["name"] if "name" in subCfg else "sub_"+str(idx+1)
-            subNode.set( "name", "subName" )
+            subNode.set( "name", subName )
             subChannel = subCfg["channel"]
             if subChannel in channelIndices:
                 raise ValueError( "The output channel %d used by subwoofer '%s' is already used as a loudspeaker channel."
-- 
2.43.0


From 46a2cb1edd5da48814d7ecd09f2ed0570562b155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:44 +0000
Subject: [PATCH 172/203] fix: do not modify the gains and delays passed to
 createArrayConfigFile

---
 .../packages/loudspeakerconfig/createArrayConfigFile.py       | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/python/packages/loudspeakerconfig/createArrayConfigFile.py b/src/python/packages/loudspeakerconfig/createArrayConfigFile.py
index 38d1993..e664a49 100644
--- a/src/python/packages/loudspeakerconfig/createArrayConfigFile.py
+++ b/src/python/packages/loudspeakerconfig/createArrayConfigFile.py
@@ -231,7 +231,7 @@ def createArrayConfigFile( outputFileName,
         # and closer loudspeakers a negative dB gain
         maxDistance = np.max( lspDistances )
         distanceGainAdjustment = 20.0*np.log10( lspDistances / maxDistance )
-        lspGainDB += distanceGainAdjustment
+        lspGainDB = np.asarray( lspGainDB ) + distanceGainAdjustment
 
     if distanceDelay:
         if lspDelays is None:
@@ -241,7 +241,7 @@ def createArrayConfigFile( outputFileName,
         # and closer loudspeakers a positive delay
         maxDistance = np.max( lspDistances )
         distanceDelayAdjustment = (  maxDistance - lspDistances ) / speedOfSound
-        lspDelays += distanceDelayAdjustment
+        lspDelays = np.asarray( lspDelays ) + distanceDelayAdjustment
 
     # %% Create the document tree
     xmlRoot = ET.Element( "panningConfiguration" )
-- 
2.43.0


From 6aebf64ff809426fba1e18944d29cd4436a6e2e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:44 +0000
Subject: [PATCH 173/203] fix: accept array configurations without virtual
 loudspeakers (None)

---
 src/python/packages/loudspeakerconfig/createArrayConfigFile.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/python/packages/loudspeakerconfig/createArrayConfigFile.py b/src/python/packages/loudspeakerconfig/createArrayConfigFile.py
index e664a49..b369a5b 100644
--- a/src/python/packages/loudspeakerconfig/createArrayConfigFile.py
+++ b/src/python/packages/loudspeakerconfig/createArrayConfigFile.py
@@ -154,6 +154,7 @@ def createArrayConfigFile( outputFileName,
             raise ValueError( "If the 'loudspeakerLabels' argument is given, its length must match the number of real loudspeakers." )
 
     if virtualLoudspeakers is None:
+        virtualLoudspeakers = []
         numVirtualLoudspeakers = 0
         virtualLoudspeakerPos = np.zeros( (3,0), dtype=lspPositions.dtype )
         virtualLoudspeakerLabels = []
-- 
2.43.0


From a408f6e43e0a371e36ba31a9e22ab02ec344c1de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:44 +0000
Subject: [PATCH 174/203] fix: format strings of error messages in
 createArrayConfigFile

---
 .../packages/loudspeakerconfig/createArrayConfigFile.py     | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/python/packages/loudspeakerconfig/createArrayConfigFile.py b/src/python/packages/loudspeakerconfig/createArrayConfigFile.py
index b369a5b..32a2efc 100644
--- a/src/python/packages/loudspeakerconfig/createArrayConfigFile.py
+++ b/src/python/packages/loudspeakerconfig/createArrayConfigFile.py
@@ -294,10 +294,10 @@ def createArrayConfigFile( outputFileName,
                 assocLsp = eqSpec["loudspeakers"]
                 for lsp in assocLsp:
                     if lsp not in loudspeakerLabels:
-                        raise ValueError( "The loudspeaker label '%s' in the EQ specification '%' does not name an existing real loudspeaker."
+                        raise ValueError( "The loudspeaker label '%s' in the EQ specification '%s' does not name an existing real loudspeaker."
                                          % (lsp, eqId) )
                     if lsp in loudspeakerEqs:
-                        raise ValueError( "The loudspeaker label '%s' in the EQ specification '%' already has another EQ '."
+                        raise ValueError( "The loudspeaker label '%s' in the EQ specification '%s' already has another EQ '."
                                          % (lsp, eqId) )
                     loudspeakerEqs[lsp] = eqId
 
@@ -364,7 +364,7 @@ def createArrayConfigFile( outputFileName,
             labelsNotFound = [ label for label in assignedSpeakers
                               if label not in loudspeakerLabels]
             if len( labelsNotFound ) > 0:
-                raise ValueError( "Subwoofer configuration '%s% contains unknown associated speakers: %s"
+                raise ValueError( "Subwoofer configuration '%s' contains unknown associated speakers: %s"
                                  % (subName, str(labelsNotFound) ))
             assignedSpeakersString = ", ".join( str(x) for x in assignedSpeakers )
             subNode.set( "assignedLoudspeakers", assignedSpeakersString )
-- 
2.43.0


From 105162683f6ad64d80e5014217a3424fbfd40fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:44 +0000
Subject: [PATCH 175/203] fix: ignore the third coordinate of loudspeaker
 positions in 2D array configurations

---
 .../packages/loudspeakerconfig/createArrayConfigFile.py    | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/python/packages/loudspeakerconfig/createArrayConfigFile.py b/src/python/packages/loudspeakerconfig/createArrayConfigFile.py
index 32a2efc..1d322cc 100644
--- a/src/python/packages/loudspeakerconfig/createArrayConfigFile.py
+++ b/src/python/packages/loudspeakerconfig/createArrayConfigFile.py
@@ -137,7 +137,10 @@ def createArrayConfigFile( outputFileName,
 
     numRealLoudspeakers = lspPositions.shape[-1]
 
-    if lspVecDim == 2:
+    if twoDconfig: # The third coordinate is ignored if present.
+        lspPositions = lspPositions[:2,:]
+
+    if lspPositions.shape[0] == 2:
         lspPositions = np.concatenate( (lspPositions, np.zeros( (1, numRealLoudspeakers), dtype=lspPositions.dtype)), axis = 0 )
 
     if channelIndices is None:
@@ -167,6 +170,8 @@ def createArrayConfigFile( outputFileName,
             pos = np.asarray(record["pos"])
             # This also allows for 2D positions and sets the 3rd coordinate to 0 in this case.
             virtualLoudspeakerPos[0:pos.shape[-1],idx] = pos
+            if twoDconfig:
+                virtualLoudspeakerPos[2,idx] = 0
             # Check optional downmix configuration for virtual loudspeakers.
             if "routing" in record:
                 for routingEntry in record["routing"]:
-- 
2.43.0


From 38c5db964ae418cf91dd72d54590156d556f640b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:44 +0000
Subject: [PATCH 176/203] fix: accept array-like loudspeaker positions
 (including integers) and labels in createArrayConfigFile

---
 .../packages/loudspeakerconfig/createArrayConfigFile.py      | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/python/packages/loudspeakerconfig/createArrayConfigFile.py b/src/python/packages/loudspeakerconfig/createArrayConfigFile.py
index 1d322cc..ae40bc8 100644
--- a/src/python/packages/loudspeakerconfig/createArrayConfigFile.py
+++ b/src/python/packages/loudspeakerconfig/createArrayConfigFile.py
@@ -130,9 +130,9 @@ def createArrayConfigFile( outputFileName,
 
     """
 
-    lspVecDim = lspPositions.shape[0]
+    lspPositions = np.asarray( lspPositions, dtype=float )
 
-    if len( lspPositions.shape ) != 2 or (lspVecDim not in [2,3]):
+    if len( lspPositions.shape ) != 2 or (lspPositions.shape[0] not in [2,3]):
         raise ValueError( "The loudspeaker position data must be a 2D array with leading dimension 2 or 3" )
 
     numRealLoudspeakers = lspPositions.shape[-1]
@@ -155,6 +155,7 @@ def createArrayConfigFile( outputFileName,
     else:
         if len( loudspeakerLabels ) != numRealLoudspeakers:
             raise ValueError( "If the 'loudspeakerLabels' argument is given, its length must match the number of real loudspeakers." )
+        loudspeakerLabels = list( loudspeakerLabels )
 
     if virtualLoudspeakers is None:
         virtualLoudspeakers = []
-- 
2.43.0


From a492a9a31d4ab2c925224fb2cab64b26620781b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:54 +0000
Subject: [PATCH 177/203] fix: permit exactly those loudspeaker labels that can
 be read from array configurations

---
 .../packages/loudspeakerconfig/createArrayConfigFile.py   | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/python/packages/loudspeakerconfig/createArrayConfigFile.py b/src/python/packages/loudspeakerconfig/createArrayConfigFile.py
index ae40bc8..78e4bc4 100644
--- a/src/python/packages/loudspeakerconfig/createArrayConfigFile.py
+++ b/src/python/packages/loudspeakerconfig/createArrayConfigFile.py
@@ -53,7 +53,7 @@ def createArrayConfigFile( outputFileName,
        A list of output integer channel indices, one for each real loudspeaker. Optional argument, if not provided, consecutive indices starting from 1 are assigned. If provided, the length of the array must match the number of real loudspeakers, and indices must be unique.
     loudspeakerLabels: array-like, optional
        A list of strings containing alphanumerical labels for the real loudspeakers.
-       Labels must be unique, consist of the characters 'a-zA-Z0-9&()\+:_-', one for
+       Labels must be unique, consist of the characters 'a-zA-Z0-9@&()+/:_-', one for
        each real loudspeaker. The labels are used to reference loudspeakers in triplets,
        virtual loudspeaker routings, and subwoofer configs.
        Optional parameter. If not provided, labels of the form 'lsp_i' with i=1,2,...
@@ -185,16 +185,16 @@ def createArrayConfigFile( outputFileName,
     allLabels = loudspeakerLabels + virtualLoudspeakerLabels
 
     # Check loudspeaker labels with regular expression and for uniqueness.
-    labelRegex = re.compile( r"^[a-zA-Z0-9&\\(\)\\\+:_-]+$" )
+    labelRegex = re.compile( r"[a-zA-Z0-9@&()+/:_-]+" )
     invalidLabels = []
     for label in loudspeakerLabels:
-        if not bool(labelRegex.match(label) ):
+        if not bool(labelRegex.fullmatch(label) ):
             invalidLabels.append( label )
     if len( invalidLabels ) > 0:
         raise ValueError( "The loudspeaker labels '%s' are invalid." % str(invalidLabels ) )
     invalidVirtualLabels = []
     for label in virtualLoudspeakerLabels:
-        if not bool(labelRegex.match(label) ):
+        if not bool(labelRegex.fullmatch(label) ):
             invalidVirtualLabels.append( label )
     if len( invalidVirtualLabels ) > 0:
         raise ValueError( "The virtual speaker labels '%s' are invalid." % str(invalidVirtualLabels ) )
-- 
2.43.0


From 006d6c326c43f32cea2305933c0a1f7764d29d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:54 +0000
Subject: [PATCH 178/203] fix: routings of virtual loudspeakers with zero or
 negative gains in array configurations

---
 .../packages/loudspeakerconfig/createArrayConfigFile.py       | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/python/packages/loudspeakerconfig/createArrayConfigFile.py b/src/python/packages/loudspeakerconfig/createArrayConfigFile.py
index 78e4bc4..e0eb31b 100644
--- a/src/python/packages/loudspeakerconfig/createArrayConfigFile.py
+++ b/src/python/packages/loudspeakerconfig/createArrayConfigFile.py
@@ -334,6 +334,10 @@ def createArrayConfigFile( outputFileName,
                 ( routingLabel, gain ) = routingEntry
                 if routingLabel not in loudspeakerLabels:
                     raise ValueError( "Routing loudspeaker label %s does not match an existing (real) loudspeaker." % routingLabel )
+                if gain < 0.0:
+                    raise ValueError( "The routing gain for loudspeaker '%s' must not be negative." % routingLabel )
+                if gain == 0.0:
+                    continue # No contribution, cannot be expressed in dB.
                 gainDB = 20.0*np.log10( gain )
                 routingNode = ET.SubElement( virtualLspNode, "route" )
                 routingNode.set( "lspId", str(routingLabel) )
-- 
2.43.0


From d80739d2c72d91a6449c16b103e228df81d9aedb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:54 +0000
Subject: [PATCH 179/203] fix: reject duplicated channel indices in
 createArrayConfigFile

---
 src/python/packages/loudspeakerconfig/createArrayConfigFile.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/python/packages/loudspeakerconfig/createArrayConfigFile.py b/src/python/packages/loudspeakerconfig/createArrayConfigFile.py
index e0eb31b..d38020e 100644
--- a/src/python/packages/loudspeakerconfig/createArrayConfigFile.py
+++ b/src/python/packages/loudspeakerconfig/createArrayConfigFile.py
@@ -148,6 +148,8 @@ def createArrayConfigFile( outputFileName,
     else:
         if len( channelIndices ) != numRealLoudspeakers:
             raise ValueError( "If the 'channelIndices' argument is given, its length must match the number of real loudspeakers." )
+        if len( set(channelIndices) ) != numRealLoudspeakers or min( channelIndices ) < 1:
+            raise ValueError( "The 'channelIndices' argument must contain unique indices greater or equal than 1." )
 
     if loudspeakerLabels is None:
         # Create default numbering 1...numRealLoudspeakers
-- 
2.43.0


From d4d024123270f289d33701a76b8af0b1c99b8e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:54 +0000
Subject: [PATCH 180/203] fix: elevation of points at the origin and accuracy
 close to the poles in cart2sph

---
 src/python/packages/loudspeakerconfig/geometry_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/packages/loudspeakerconfig/geometry_functions.py b/src/python/packages/loudspeakerconfig/geometry_functions.py
index 11ef7a8..4be74e5 100644
--- a/src/python/packages/loudspeakerconfig/geometry_functions.py
+++ b/src/python/packages/loudspeakerconfig/geometry_functions.py
@@ -19,7 +19,7 @@ def cart2sph( X ):
     z = X[...,2]
     radius = np.sqrt( x*x + y*y + z*z );
     az = np.arctan2( y, x );
-    el = np.arcsin( z / radius );
+    el = np.arctan2( z, np.sqrt( x*x + y*y ) );
     return az, el, radius
 
 def sph2cart( az, el, r ):
-- 
2.43.0


From e40bf6da794696c58e26675848571eb4006e201b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:54 +0000
Subject: [PATCH 181/203] fix: default output file name of
 createArrayConfigFromSofa

---
 .../packages/loudspeakerconfig/createArrayConfigFromSofa.py     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/packages/loudspeakerconfig/createArrayConfigFromSofa.py b/src/python/packages/loudspeakerconfig/createArrayConfigFromSofa.py
index 2c48f48..42cf83b 100644
--- a/src/python/packages/loudspeakerconfig/createArrayConfigFromSofa.py
+++ b/src/python/packages/loudspeakerconfig/createArrayConfigFromSofa.py
@@ -41,7 +41,7 @@ def createArrayConfigFromSofa( sofaFile, xmlFile = None, lspLabels = None, twoDS
         raise ValueError( "SOFA file does not exist.")
 
     if xmlFile is None:
-        xmlFile = os.path.basename(sofaFile) + '.xml'
+        xmlFile = os.path.splitext(sofaFile)[0] + '.xml'
 
     fh = h5py.File( sofaFile )
 
-- 
2.43.0


From 252c5e974bacda755860dc3335f7932c563bd3fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:57 +0000
Subject: [PATCH 182/203] fix: use a clock that exists in current Python
 versions in the metadapter engine

---
 src/python/packages/metadapter/core/metadapter_engine.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/python/packages/metadapter/core/metadapter_engine.py b/src/python/packages/metadapter/core/metadapter_engine.py
index 8fd2383..73c86ef 100644
--- a/src/python/packages/metadapter/core/metadapter_engine.py
+++ b/src/python/packages/metadapter/core/metadapter_engine.py
@@ -17,7 +17,7 @@ from copy import deepcopy
 import json
 import os.path
 from collections import namedtuple
-from time import clock
+from time import monotonic
 
 import xml.etree.ElementTree as et
 
@@ -60,7 +60,7 @@ class Engine():
 
         # Prune expired objects if a timeout is specified.
         if self._objectTimeout is not None:
-            deadline = clock() - self._objectTimeout
+            deadline = monotonic() - self._objectTimeout
             removeIds = [k for k,v in self._objectDict.items() if v.timeStamp < deadline ]
             for k in removeIds:
                 del self._objectDict[k]
@@ -106,7 +106,7 @@ class Engine():
         if self.verbose:
             print( 'metadapter::Engine:datagramReceived(): %d bytes received' % len(jsonData) )
         newObjects = self._decodeObjectVectorFromJson( jsonData )
-        timeStamp = clock()
+        timeStamp = monotonic()
         for obj in newObjects:
             objId = obj["id"]
             self._objectDict[objId] = Engine.ObjectRecord( timeStamp, obj )
-- 
2.43.0


From d77ca8de0b2f33dbd926cb298e3466ac1b871812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:57 +0000
Subject: [PATCH 183/203] fix: imports of condition, merge, source and sink
 processors within the metadapter package

---
 .../packages/metadapter/condition_processors/__init__.py      | 4 ++--
 .../metadapter/condition_processors/select_group_condition.py | 2 +-
 src/python/packages/metadapter/core/composite_conditional.py  | 4 ++--
 src/python/packages/metadapter/core/composite_source_merge.py | 4 ++--
 src/python/packages/metadapter/core/composite_split_sink.py   | 4 ++--
 src/python/packages/metadapter/merge_processors/__init__.py   | 4 ++--
 .../merge_processors/branch_order_merge_processor.py          | 2 +-
 src/python/packages/metadapter/sink_processors/__init__.py    | 4 ++--
 .../metadapter/sink_processors/print_scene_processor.py       | 2 +-
 src/python/packages/metadapter/source_processors/__init__.py  | 4 ++--
 .../metadapter/source_processors/static_scene_source.py       | 2 +-
 11 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/src/python/packages/metadapter/condition_processors/__init__.py b/src/python/packages/metadapter/condition_processors/__init__.py
index 6164b21..37ca08e 100644
--- a/src/python/packages/metadapter/condition_processors/__init__.py
+++ b/src/python/packages/metadapter/condition_processors/__init__.py
@@ -10,9 +10,9 @@ Created on Thu Jan 28 10:08:15 2016
 # Additional, use it to initialize the contents of the directory:
 # Register the contained container classes.
 
-from condition_processors.condition_processor_factory import ConditionProcessorFactory
+from .condition_processor_factory import ConditionProcessorFactory
 
-from condition_processors.select_group_condition import SelectGroupConditionProcessor
+from .select_group_condition import SelectGroupConditionProcessor
 
 print( 'condition_processors/__init__.py: Initialization called.' )
 ConditionProcessorFactory.registerProcessorClass( 'SelectGroup', SelectGroupConditionProcessor )
diff --git a/src/python/packages/metadapter/condition_processors/select_group_condition.py b/src/python/packages/metadapter/condition_processors/select_group_condition.py
index 9260679..1e83ccd 100644
--- a/src/python/packages/metadapter/condition_processors/select_group_condition.py
+++ b/src/python/packages/metadapter/condition_processors/select_group_condition.py
@@ -7,7 +7,7 @@ Created on Thu Jan 21 17:10:05 2016
 
 import re
 
-from condition_processor_interface import ConditionProcessorInterface
+from ..core.condition_processor_interface import ConditionProcessorInterface
 
 class SelectGroupConditionProcessor(ConditionProcessorInterface):
     def __init__(self, arguments ):
diff --git a/src/python/packages/metadapter/core/composite_conditional.py b/src/python/packages/metadapter/core/composite_conditional.py
index fae276e..2a3e022 100644
--- a/src/python/packages/metadapter/core/composite_conditional.py
+++ b/src/python/packages/metadapter/core/composite_conditional.py
@@ -22,8 +22,8 @@ class CompositeConditional(SequenceProcessorInterface):
         # Common constructor code goes here. (nothing needs to be done at the time being)
     
         # Lazy imports to avoid cyclic dependencies.
-        from condition_processors.condition_processor_factory import ConditionProcessorFactory
-        from merge_processors.merge_processor_factory import MergeProcessorFactory
+        from ..condition_processors.condition_processor_factory import ConditionProcessorFactory
+        from ..merge_processors.merge_processor_factory import MergeProcessorFactory
         
         # TODO: Move the construction code into a common facility (shared by all object types)
         self.verbose = verbose
diff --git a/src/python/packages/metadapter/core/composite_source_merge.py b/src/python/packages/metadapter/core/composite_source_merge.py
index c76f6f1..040b1f0 100644
--- a/src/python/packages/metadapter/core/composite_source_merge.py
+++ b/src/python/packages/metadapter/core/composite_source_merge.py
@@ -15,8 +15,8 @@ class CompositeSourceMerge(SequenceProcessorInterface):
         # Common constructor code goes here. (nothing needs to be done at the time being)
 
         # Lazy imports to avoid cyclic dependencies.
-        from source_processors.source_processor_factory import SourceProcessorFactory
-        from merge_processors.merge_processor_factory import MergeProcessorFactory
+        from ..source_processors.source_processor_factory import SourceProcessorFactory
+        from ..merge_processors.merge_processor_factory import MergeProcessorFactory
         
         self.verbose = verbose
 
diff --git a/src/python/packages/metadapter/core/composite_split_sink.py b/src/python/packages/metadapter/core/composite_split_sink.py
index 8b3f916..2c542de 100644
--- a/src/python/packages/metadapter/core/composite_split_sink.py
+++ b/src/python/packages/metadapter/core/composite_split_sink.py
@@ -15,8 +15,8 @@ class CompositeSplitSink(SequenceProcessorInterface):
         # Common constructor code goes here. (nothing needs to be done at the time being)
 
         # Lazy imports to avoid cyclic dependencies.
-        from sink_processors.sink_processor_factory import SinkProcessorFactory
-        from condition_processors.condition_processor_factory import ConditionProcessorFactory
+        from ..sink_processors.sink_processor_factory import SinkProcessorFactory
+        from ..condition_processors.condition_processor_factory import ConditionProcessorFactory
         
         self.verbose = verbose
 
diff --git a/src/python/packages/metadapter/merge_processors/__init__.py b/src/python/packages/metadapter/merge_processors/__init__.py
index 089b166..a72dc42 100644
--- a/src/python/packages/metadapter/merge_processors/__init__.py
+++ b/src/python/packages/metadapter/merge_processors/__init__.py
@@ -10,9 +10,9 @@ Created on Thu Jan 28 10:08:15 2016
 # Additional, use it to initialize the contents of the directory:
 # Register the contained container classes.
 
-from merge_processors.merge_processor_factory import MergeProcessorFactory
+from .merge_processor_factory import MergeProcessorFactory
 
-from merge_processors.branch_order_merge_processor import BranchOrderMergeProcessor
+from .branch_order_merge_processor import BranchOrderMergeProcessor
 
 print( 'merge_processors/__init__.py: Initialization called.' )
 MergeProcessorFactory.registerProcessorClass( 'BranchOrderMerge', BranchOrderMergeProcessor )
diff --git a/src/python/packages/metadapter/merge_processors/branch_order_merge_processor.py b/src/python/packages/metadapter/merge_processors/branch_order_merge_processor.py
index 47ce971..ec2ac14 100644
--- a/src/python/packages/metadapter/merge_processors/branch_order_merge_processor.py
+++ b/src/python/packages/metadapter/merge_processors/branch_order_merge_processor.py
@@ -8,7 +8,7 @@ Created on Thu Jan 21 17:10:05 2016
 from itertools import chain
 from itertools import groupby
 
-from merge_processor_interface import MergeProcessorInterface
+from ..core.merge_processor_interface import MergeProcessorInterface
 
 class BranchOrderMergeProcessor(MergeProcessorInterface):
     def __init__(self, arguments ):
diff --git a/src/python/packages/metadapter/sink_processors/__init__.py b/src/python/packages/metadapter/sink_processors/__init__.py
index a123186..e1bfe16 100644
--- a/src/python/packages/metadapter/sink_processors/__init__.py
+++ b/src/python/packages/metadapter/sink_processors/__init__.py
@@ -12,9 +12,9 @@ print( 'sink_processors/__init__.py: Initialization called.' )
 # Additional, use it to initialize the contents of the directory:
 # Register the contained container classes.
 
-from sink_processors.sink_processor_factory import SinkProcessorFactory
+from .sink_processor_factory import SinkProcessorFactory
 
-from sink_processors.print_scene_processor import PrintSceneProcessor
+from .print_scene_processor import PrintSceneProcessor
 
 SinkProcessorFactory.registerProcessorClass( 'PrintSceneProcessor', PrintSceneProcessor )
 print( 'sink_processors/__init__.py: Initialization finished.' )
diff --git a/src/python/packages/metadapter/sink_processors/print_scene_processor.py b/src/python/packages/metadapter/sink_processors/print_scene_processor.py
index 461b91c..6e7405a 100644
--- a/src/python/packages/metadapter/sink_processors/print_scene_processor.py
+++ b/src/python/packages/metadapter/sink_processors/print_scene_processor.py
@@ -6,7 +6,7 @@ Created on Fri Jan 06 10:00:00 2017
 """
 from copy import deepcopy
 
-from sink_processor_interface import SinkProcessorInterface
+from ..core.sink_processor_interface import SinkProcessorInterface
 
 class PrintSceneProcessor(SinkProcessorInterface):
     def __init__(self, arguments ):
diff --git a/src/python/packages/metadapter/source_processors/__init__.py b/src/python/packages/metadapter/source_processors/__init__.py
index a597063..ad4a311 100644
--- a/src/python/packages/metadapter/source_processors/__init__.py
+++ b/src/python/packages/metadapter/source_processors/__init__.py
@@ -12,9 +12,9 @@ print( 'source_processors/__init__.py: Initialization called.' )
 # Additional, use it to initialize the contents of the directory:
 # Register the contained container classes.
 
-from source_processors.source_processor_factory import SourceProcessorFactory
+from .source_processor_factory import SourceProcessorFactory
 
-from source_processors.static_scene_source import StaticSceneSource
+from .static_scene_source import StaticSceneSource
 
 SourceProcessorFactory.registerProcessorClass( 'StaticSceneSource', StaticSceneSource )
 print( 'source_processors/__init__.py: Initialization finished.' )
diff --git a/src/python/packages/metadapter/source_processors/static_scene_source.py b/src/python/packages/metadapter/source_processors/static_scene_source.py
index ee63c3e..a2ae403 100644
--- a/src/python/packages/metadapter/source_processors/static_scene_source.py
+++ b/src/python/packages/metadapter/source_processors/static_scene_source.py
@@ -8,7 +8,7 @@ Created on Fri Jan 06 10:00:00 2017
 from json import loads
 from copy import deepcopy
 
-from source_processor_interface import SourceProcessorInterface
+from ..core.source_processor_interface import SourceProcessorInterface
 
 class StaticSceneSource(SourceProcessorInterface):
     def __init__(self, arguments ):
-- 
2.43.0


From 6300b381f3a7e2ac2da4fc669c9de3763e05c35b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:57 +0000
Subject: [PATCH 184/203] fix: dictionary lookup for Python 3 in the metadapter
 group selection

---
 .../metadapter/condition_processors/select_group_condition.py   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/packages/metadapter/condition_processors/select_group_condition.py b/src/python/packages/metadapter/condition_processors/select_group_condition.py
index 1e83ccd..6cee212 100644
--- a/src/python/packages/metadapter/condition_processors/select_group_condition.py
+++ b/src/python/packages/metadapter/condition_processors/select_group_condition.py
@@ -27,7 +27,7 @@ class SelectGroupConditionProcessor(ConditionProcessorInterface):
             else:
                 groups = [int(x) for x in re.split( ' *, *', groupString ) ]
                 for groupIt in groups:
-                    if not self.groupLookup.has_key( groupIt ):
+                    if not groupIt in self.groupLookup:
                         self.groupLookup[ groupIt ] = []
                     self.groupLookup[ groupIt ].append( branchIndex )
             branchIndex = branchIndex + 1
-- 
2.43.0


From 19aeb693de77dcbf2971916ac74764578a5c7aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:57 +0000
Subject: [PATCH 185/203] fix: count the branches of metadapter conditionals

---
 src/python/packages/metadapter/core/composite_conditional.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/packages/metadapter/core/composite_conditional.py b/src/python/packages/metadapter/core/composite_conditional.py
index 2a3e022..c000cbc 100644
--- a/src/python/packages/metadapter/core/composite_conditional.py
+++ b/src/python/packages/metadapter/core/composite_conditional.py
@@ -46,7 +46,7 @@ class CompositeConditional(SequenceProcessorInterface):
 
         # Instantiate the branches
         branchNodes = xmlConfig.findall( 'branch' )
-        numberOfBranches = len( self.branches )
+        numberOfBranches = len( branchNodes )
         if numberOfBranches < 1:
             raise ValueError( 'Composite conditionals must contain at least one branch.' )
         self.branchNames = []
-- 
2.43.0


From 276b898aaa0a63e98b778710b1717cce3281b307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:57 +0000
Subject: [PATCH 186/203] fix: order of the branches passed to the merge
 processor of metadapter conditionals

---
 src/python/packages/metadapter/core/composite_conditional.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/packages/metadapter/core/composite_conditional.py b/src/python/packages/metadapter/core/composite_conditional.py
index c000cbc..32c1532 100644
--- a/src/python/packages/metadapter/core/composite_conditional.py
+++ b/src/python/packages/metadapter/core/composite_conditional.py
@@ -94,7 +94,7 @@ class CompositeConditional(SequenceProcessorInterface):
                 raise RuntimeError( 'The branch ids defined in the merge processor do not match the ids of the processing branches.')        
             self.mergeBranchIndices = []
             for branchId in mergeBranchNames:
-                processingBranchId = mergeBranchNames.index( branchId )
+                processingBranchId = self.branchNames.index( branchId )
                 self.mergeBranchIndices.append( processingBranchId )
             
     def processObjectVector( self, objectVector ):
-- 
2.43.0


From 52cc136c06aa49cc0b737adaaabb2faffd51b459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:57 +0000
Subject: [PATCH 187/203] fix: report branch names that do not match in
 metadapter configurations

---
 src/python/packages/metadapter/core/composite_source_merge.py | 4 ++--
 src/python/packages/metadapter/core/composite_split_sink.py   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/python/packages/metadapter/core/composite_source_merge.py b/src/python/packages/metadapter/core/composite_source_merge.py
index 040b1f0..de83a16 100644
--- a/src/python/packages/metadapter/core/composite_source_merge.py
+++ b/src/python/packages/metadapter/core/composite_source_merge.py
@@ -57,10 +57,10 @@ class CompositeSourceMerge(SequenceProcessorInterface):
             throughBranchName = xmlConfig.get( 'throughbranch' )
             sourceBranchName = xmlConfig.get( 'sourcebranch' )
         except BaseException:
-            raise( 'A source-merge construct must contain the attributes "throughbranch" and "sourcebranch" to denote the names of the respective branches of the merge processor.' )
+            raise ValueError( 'A source-merge construct must contain the attributes "throughbranch" and "sourcebranch" to denote the names of the respective branches of the merge processor.' )
 
         if (not throughBranchName in mergeBranchNames) or (not sourceBranchName in mergeBranchNames ):
-            raise( 'In a source-merge construct, the attributes "throughbranch" and "sourcebranch" must match the names of the branches of the merge processor.' )
+            raise ValueError( 'In a source-merge construct, the attributes "throughbranch" and "sourcebranch" must match the names of the branches of the merge processor.' )
 
         # Logical switch whether the source branch or the through brnach is passed first to the merge processor.
         self.sourceFirst = (sourceBranchName == mergeBranchNames[0])
diff --git a/src/python/packages/metadapter/core/composite_split_sink.py b/src/python/packages/metadapter/core/composite_split_sink.py
index 2c542de..ac7a893 100644
--- a/src/python/packages/metadapter/core/composite_split_sink.py
+++ b/src/python/packages/metadapter/core/composite_split_sink.py
@@ -57,10 +57,10 @@ class CompositeSplitSink(SequenceProcessorInterface):
             throughBranchName = xmlConfig.get( 'throughbranch' )
             sinkBranchName = xmlConfig.get( 'sinkbranch' )
         except BaseException:
-            raise( 'A split-sink construct must contain the attributes "throughbranch" and "sinkbranch" to denote the names of the respective branches of the condition processor.' )
+            raise ValueError( 'A split-sink construct must contain the attributes "throughbranch" and "sinkbranch" to denote the names of the respective branches of the condition processor.' )
 
         if (not throughBranchName in conditionBranchNames) or (not sinkBranchName in conditionBranchNames ):
-            raise( 'In a split-sink construct, the attributes "throughbranch" and "sourcebranch" must match the names of the branches of the merge processor.' )
+            raise ValueError( 'In a split-sink construct, the attributes "throughbranch" and "sourcebranch" must match the names of the branches of the merge processor.' )
 
         # Logical switch whether the source branch or the through brnach is passed first to the merge processor.
         self.sinkFirst = (sinkBranchName == conditionBranchNames[0])
-- 
2.43.0


From 20ce2f2ccefa0b4e97c8b735f210c253cfb9790c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:57 +0000
Subject: [PATCH 188/203] fix: skip metadapter processors that cannot be
 created

---
 src/python/packages/metadapter/core/composite_sequence.py     | 3 ++-
 src/python/packages/metadapter/core/composite_source_merge.py | 3 ++-
 src/python/packages/metadapter/core/composite_split_sink.py   | 3 ++-
 src/python/packages/metadapter/core/instantiate_subflow.py    | 2 +-
 4 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/python/packages/metadapter/core/composite_sequence.py b/src/python/packages/metadapter/core/composite_sequence.py
index 93144f7..8694f9a 100644
--- a/src/python/packages/metadapter/core/composite_sequence.py
+++ b/src/python/packages/metadapter/core/composite_sequence.py
@@ -17,7 +17,8 @@ class CompositeSequence(SequenceProcessorInterface):
         for processorChild in xmlConfig:
             singleChildList = [ processorChild ] # The construction function expects a list, even if it is single-element.
             subProcessor = instantiateSubFlow( singleChildList, processorLookup, verbose )
-            self.processorList.append( subProcessor )
+            if subProcessor is not None: # Processors that could not be created are skipped.
+                self.processorList.append( subProcessor )
 
     def processObjectVector( self, objectVector ):
         """
diff --git a/src/python/packages/metadapter/core/composite_source_merge.py b/src/python/packages/metadapter/core/composite_source_merge.py
index de83a16..941bd84 100644
--- a/src/python/packages/metadapter/core/composite_source_merge.py
+++ b/src/python/packages/metadapter/core/composite_source_merge.py
@@ -45,7 +45,8 @@ class CompositeSourceMerge(SequenceProcessorInterface):
                 if (self.sourceProcessor == None) or (self.mergeProcessor != None):
                    raise ValueError( 'All sequence processors in a source-merge construct must be between the leading <source> and the trailing <merge> processor.' )
                 subElem = instantiateSubFlow( [subNode], processorLookup, verbose )
-                self.sequenceProcessors.append( subElem )
+                if subElem is not None: # Processors that could not be created are skipped.
+                    self.sequenceProcessors.append( subElem )
         if (self.sourceProcessor == None) or (self.mergeProcessor == None):
             raise ValueError( 'A source-merge construct must contain exactly one source and one merge processor.' )
 
diff --git a/src/python/packages/metadapter/core/composite_split_sink.py b/src/python/packages/metadapter/core/composite_split_sink.py
index ac7a893..ebf1eb4 100644
--- a/src/python/packages/metadapter/core/composite_split_sink.py
+++ b/src/python/packages/metadapter/core/composite_split_sink.py
@@ -45,7 +45,8 @@ class CompositeSplitSink(SequenceProcessorInterface):
                 if (self.conditionProcessor == None) or (self.sinkProcessor != None):
                    raise ValueError( 'All sequence processors in a split-sink construct must be between the leading <condition> and the trailing <sink> processor.' )
                 subElem = instantiateSubFlow( [subNode], processorLookup, verbose )
-                self.sequenceProcessors.append( subElem )
+                if subElem is not None: # Processors that could not be created are skipped.
+                    self.sequenceProcessors.append( subElem )
         if (self.conditionProcessor == None) or (self.sinkProcessor == None):
             raise ValueError( 'A split-sink construct must contain exactly one condition and one sink processor.' )
 
diff --git a/src/python/packages/metadapter/core/instantiate_subflow.py b/src/python/packages/metadapter/core/instantiate_subflow.py
index 623bdf1..377da4e 100644
--- a/src/python/packages/metadapter/core/instantiate_subflow.py
+++ b/src/python/packages/metadapter/core/instantiate_subflow.py
@@ -44,7 +44,7 @@ def instantiateSubFlow( nodes, processorLookup, verbose = False ):
                 processorLookup[processorName] = newProc
                 return newProc
             except BaseException as ex:
-                print( 'Exception while creating processor \"%s\": %s, skipping.' % ( processorName, ex.message ) )
+                print( 'Exception while creating processor \"%s\": %s, skipping.' % ( processorName, str(ex) ) )
             # For the moment, continue after the error
         elif singleNode.tag == 'sequence':
             # Other option: lift up the sequence by one level and invoke instantiateSubFlow directly (recursively)
-- 
2.43.0


From e779bf9e1e50018176c679fae3f462d5c6517a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:57 +0000
Subject: [PATCH 189/203] fix: group selection of metadapter objects with group
 ids given as strings

---
 .../metadapter/condition_processors/select_group_condition.py   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/packages/metadapter/condition_processors/select_group_condition.py b/src/python/packages/metadapter/condition_processors/select_group_condition.py
index 6cee212..b046220 100644
--- a/src/python/packages/metadapter/condition_processors/select_group_condition.py
+++ b/src/python/packages/metadapter/condition_processors/select_group_condition.py
@@ -48,7 +48,7 @@ class SelectGroupConditionProcessor(ConditionProcessorInterface):
         # Create an empty list for each output branch
         result = [ [] for _ in range(0,self.numberOfBranches() ) ]
         for o in objectVector:
-            gid = o['group']
+            gid = int( o['group'] ) # Depending on the message sender, the group might be a string.
             for wc in self.wildCardBranches:
                 result[wc].append( o )
             if gid in self.groupLookup:
-- 
2.43.0


From 7cb529e5cecb45b482afa8bd5c052bc0ab86693c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:13 +0000
Subject: [PATCH 190/203] fix: independent objects in the branches of
 metadapter group selections

---
 .../condition_processors/select_group_condition.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/python/packages/metadapter/condition_processors/select_group_condition.py b/src/python/packages/metadapter/condition_processors/select_group_condition.py
index b046220..46c9b8b 100644
--- a/src/python/packages/metadapter/condition_processors/select_group_condition.py
+++ b/src/python/packages/metadapter/condition_processors/select_group_condition.py
@@ -6,6 +6,7 @@ Created on Thu Jan 21 17:10:05 2016
 """
 
 import re
+from copy import deepcopy
 
 from ..core.condition_processor_interface import ConditionProcessorInterface
 
@@ -49,14 +50,15 @@ class SelectGroupConditionProcessor(ConditionProcessorInterface):
         result = [ [] for _ in range(0,self.numberOfBranches() ) ]
         for o in objectVector:
             gid = int( o['group'] ) # Depending on the message sender, the group might be a string.
-            for wc in self.wildCardBranches:
-                result[wc].append( o )
+            branchIds = list( self.wildCardBranches )
             if gid in self.groupLookup:
-                branchIds = self.groupLookup[gid]
-                for branchId in branchIds:
-                    result[branchId].append( o )
+                branchIds.extend( self.groupLookup[gid] )
             elif self.defaultBranch != None:
-                result[self.defaultBranch].append( o )
+                branchIds.append( self.defaultBranch )
+            for idx, branchId in enumerate( branchIds ):
+                # If an object is sent to several branches, each receives its own copy,
+                # because processors are allowed to modify objects in place.
+                result[branchId].append( o if idx == 0 else deepcopy( o ) )
         return result
         
     def branchIds(self):
-- 
2.43.0


From bd5405d2ec0934947f7958d3d71b9ca723983d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:13 +0000
Subject: [PATCH 191/203] fix: JSON control data of the metadapter engine is
 optional and triggers processing

---
 src/python/packages/metadapter/core/metadapter_engine.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/python/packages/metadapter/core/metadapter_engine.py b/src/python/packages/metadapter/core/metadapter_engine.py
index 73c86ef..fa10ac3 100644
--- a/src/python/packages/metadapter/core/metadapter_engine.py
+++ b/src/python/packages/metadapter/core/metadapter_engine.py
@@ -71,10 +71,12 @@ class Engine():
 
         for message in oscControlData:
             self._applyOscControlData( message )
+        if jsonControlData is None:
+            jsonControlData = []
         for message in jsonControlData:
             self._applyJsonControlData( message )
 
-        if self._alwaysProcess or len(objectMetadata) > 0 or len(oscControlData) > 0:
+        if self._alwaysProcess or len(objectMetadata) > 0 or len(oscControlData) > 0 or len(jsonControlData) > 0:
             return self._executeProcessingChain( objectVector )
         else:
             return None
-- 
2.43.0


From 98bbd260573bc9efc65285b555d2153b0735f8c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:13 +0000
Subject: [PATCH 192/203] fix: store metadapter objects with ids sent as
 strings and numbers only once

---
 src/python/packages/metadapter/core/metadapter_engine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/packages/metadapter/core/metadapter_engine.py b/src/python/packages/metadapter/core/metadapter_engine.py
index fa10ac3..c2175c2 100644
--- a/src/python/packages/metadapter/core/metadapter_engine.py
+++ b/src/python/packages/metadapter/core/metadapter_engine.py
@@ -110,7 +110,7 @@ class Engine():
         newObjects = self._decodeObjectVectorFromJson( jsonData )
         timeStamp = monotonic()
         for obj in newObjects:
-            objId = obj["id"]
+            objId = int( obj["id"] ) # Depending on the message sender, the id might be a string.
             self._objectDict[objId] = Engine.ObjectRecord( timeStamp, obj )
 
     def _applyOscControlData( self, oscMsg ):
-- 
2.43.0


From 3ed4915c9295991def59fa09617fa5eec2d12b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:13 +0000
Subject: [PATCH 193/203] fix: no output of the metadapter component if no
 processing is requested

---
 src/python/packages/metadapter/visrintegration/component.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/python/packages/metadapter/visrintegration/component.py b/src/python/packages/metadapter/visrintegration/component.py
index f62cd4f..0a28ed5 100644
--- a/src/python/packages/metadapter/visrintegration/component.py
+++ b/src/python/packages/metadapter/visrintegration/component.py
@@ -93,6 +93,8 @@ class Component( visr.AtomicComponent ):
         newObjectVector = self._engine.process( objectMessages,
                                                 oscControlMessages,
                                                 jsonControlMessages )
+        if newObjectVector is None: # No new input, and output only requested on changes.
+            return
         fullJsonMsg = self._encodeObjectVectorFromJson( newObjectVector )
         if self.textOutput:
             self.objectOutput.protocol.enqueue( pml.StringParameter(fullJsonMsg) )
-- 
2.43.0


From 94d6cbd7acc0389f32d0fc7da8b24c71bd100950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:13 +0000
Subject: [PATCH 194/203] fix: runtime parameters of the GroupAdaptRadius
 metadapter processor

---
 .../metadapter/processors/group_adapt_radius_processor.py       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/packages/metadapter/processors/group_adapt_radius_processor.py b/src/python/packages/metadapter/processors/group_adapt_radius_processor.py
index c216880..96389f2 100644
--- a/src/python/packages/metadapter/processors/group_adapt_radius_processor.py
+++ b/src/python/packages/metadapter/processors/group_adapt_radius_processor.py
@@ -45,7 +45,7 @@ class GroupAdaptRadiusProcessor(SequenceProcessorInterface):
 		""" Set the parameter to a given value."""
 		if (len( valueList ) != 1):
 			raise KeyError( "GroupAdaptRadiusProcessor supports only commands consisting of a single float value" )
-		if not key in self.volumes:
+		if not key in self.adjust:
 			raise KeyError( "GroupAdaptRadiusProcessor: The command name does not correspond to a known group." )
 		self.adjust[key] = float(valueList[0])
 
-- 
2.43.0


From a73cc3b4083750423885db3a39e2e1e22fd6e932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:13 +0000
Subject: [PATCH 195/203] fix: FakeGroups metadapter processor for Python 3

---
 .../packages/metadapter/processors/fakegroups_processor.py      | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/packages/metadapter/processors/fakegroups_processor.py b/src/python/packages/metadapter/processors/fakegroups_processor.py
index 30493a5..75c3328 100755
--- a/src/python/packages/metadapter/processors/fakegroups_processor.py
+++ b/src/python/packages/metadapter/processors/fakegroups_processor.py
@@ -59,7 +59,7 @@ class FakeGroupsProcessor(SequenceProcessorInterface):
                 print (obj)
 
             # Set the group
-            obj['group'] = unicode(str(groups[i]))
+            obj['group'] = str(groups[i])
 
             # For testing — write junk into the metadata, see if the renderer complains
             # obj['myattribute'] = u'ThisIsAString'
-- 
2.43.0


From ded34ba2fec95ce34d249b7b2531b1f93a5cf242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:13 +0000
Subject: [PATCH 196/203] fix: plane wave directions given as strings in the
 Spread metadapter processor

---
 .../packages/metadapter/processors/spread_processor.py      | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/python/packages/metadapter/processors/spread_processor.py b/src/python/packages/metadapter/processors/spread_processor.py
index caa51b6..f7f68c1 100755
--- a/src/python/packages/metadapter/processors/spread_processor.py
+++ b/src/python/packages/metadapter/processors/spread_processor.py
@@ -91,9 +91,9 @@ class SpreadProcessor(SequenceProcessorInterface):
                         orig_dist = float(obj['position']['radius'])
                 
                 elif object_type == 'plane':
-                    orig_az = obj['direction']['az']		# Get original positions
-                    orig_el = obj['direction']['el']		# ...
-                    orig_dist = obj['direction']['refdist']	# ...
+                    orig_az = float(obj['direction']['az'])		# Get original positions
+                    orig_el = float(obj['direction']['el'])		# ...
+                    orig_dist = float(obj['direction']['refdist'])	# ...
                      
 
                 adjustSpread = self.spread[group]		# Get the spread value
-- 
2.43.0


From 8a9f6c65b0d6bad50a65c7e06ac19add98147a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:13 +0000
Subject: [PATCH 197/203] fix: coordinate conversions and objects without
 positions in the NuendoHeightFix metadapter processor

---
 .../processors/Nuendo_height_fix_processor.py         | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/python/packages/metadapter/processors/Nuendo_height_fix_processor.py b/src/python/packages/metadapter/processors/Nuendo_height_fix_processor.py
index 2f9969b..54773b4 100644
--- a/src/python/packages/metadapter/processors/Nuendo_height_fix_processor.py
+++ b/src/python/packages/metadapter/processors/Nuendo_height_fix_processor.py
@@ -56,7 +56,7 @@ class NuendoHeightFixProcessor(SequenceProcessorInterface):
 					rad = float(obj['direction']['refdist'])
 					az = float(obj['direction']['az'])
 					el = float(obj['direction']['el'])
-					(x, y, z) = cart2sphDeg(rad,az,el)
+					(x, y, z) = sphDeg2cart(rad,az,el)
 				elif obj_type == 'point':
 					if 'x' in obj['position'].keys():
 						x = float(obj['position']['x'])
@@ -66,7 +66,10 @@ class NuendoHeightFixProcessor(SequenceProcessorInterface):
 						rad = float(obj['position']['radius'])
 						az = float(obj['position']['az'])
 						el = float(obj['position']['el'])
-						(x, y, z) = cart2sphDeg(rad,az,el)
+						(x, y, z) = sphDeg2cart(rad,az,el)
+
+				else: # Objects without a position are not affected.
+					continue
 
 				# Remap
 				if z >= 1.0:
@@ -76,13 +79,13 @@ class NuendoHeightFixProcessor(SequenceProcessorInterface):
 
 				# Update object
 				if obj_type == 'plane':
-					(rad, az, elev) = cart2sphDeg(x, y, z)
+					(rad, az, el) = cart2sphDeg(x, y, z)
 					obj['direction'] = { 'az': az, 'el': el, 'refdist': rad }
 				elif obj_type == 'point':
 					if 'x' in obj['position'].keys():
 						obj['position'] = { 'x': x, 'y': y, 'z': z }
 					else:
-						(rad, az, elev) = cart2sphDeg(x, y, z)
+						(rad, az, el) = cart2sphDeg(x, y, z)
 						obj['position'] = { 'az': az, 'el': el, 'radius': rad }
 
 		return objectVector
-- 
2.43.0


From f1d0c57cd7ab53b9d047f6e05a22042d06f328f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:01 +0000
Subject: [PATCH 198/203] fix: objects other than point sources and plane waves
 in the Spread metadapter processor

---
 src/python/packages/metadapter/processors/spread_processor.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/python/packages/metadapter/processors/spread_processor.py b/src/python/packages/metadapter/processors/spread_processor.py
index f7f68c1..183765e 100755
--- a/src/python/packages/metadapter/processors/spread_processor.py
+++ b/src/python/packages/metadapter/processors/spread_processor.py
@@ -94,6 +94,8 @@ class SpreadProcessor(SequenceProcessorInterface):
                     orig_az = float(obj['direction']['az'])		# Get original positions
                     orig_el = float(obj['direction']['el'])		# ...
                     orig_dist = float(obj['direction']['refdist'])	# ...
+                else: # Other types of objects are not affected.
+                    continue
                      
 
                 adjustSpread = self.spread[group]		# Get the spread value
-- 
2.43.0


From 79b1c91c895ba68f6b8503b818b1510f09e404e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:20 +0000
Subject: [PATCH 199/203] fix: dimensions of an assigned PanningMatrixParameter
 were swapped

---
 src/libpanningdsp/panning_matrix_parameter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libpanningdsp/panning_matrix_parameter.cpp b/src/libpanningdsp/panning_matrix_parameter.cpp
index 10fa5aa..df8d315 100644
--- a/src/libpanningdsp/panning_matrix_parameter.cpp
+++ b/src/libpanningdsp/panning_matrix_parameter.cpp
@@ -157,8 +157,8 @@ PanningMatrixParameter& PanningMatrixParameter::operator=(PanningMatrixParameter
   {
     mTimeStamps.resize(rhs.numberOfObjects());
     mTransitionTimes.resize(rhs.numberOfObjects());
-    mGains.resize(rhs.numberOfLoudspeakers(),
-      rhs.numberOfObjects());
+    mGains.resize(rhs.numberOfObjects(),
+      rhs.numberOfLoudspeakers());
     copy(rhs.timeStamps(), timeStamps());
     copy(rhs.transitionTimes(), transitionTimes());
     mGains.copy(rhs.gains());
-- 
2.43.0


From c66c4100e605a9e92c7051898e0f88d98d462df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:21 +0000
Subject: [PATCH 200/203] fix: check the dimensions of panning gain transitions

---
 src/libpanningdsp/panning_gain_matrix.cpp      | 6 ++++++
 src/libpanningdsp/panning_matrix_parameter.cpp | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/src/libpanningdsp/panning_gain_matrix.cpp b/src/libpanningdsp/panning_gain_matrix.cpp
index aad12a4..5c768d1 100644
--- a/src/libpanningdsp/panning_gain_matrix.cpp
+++ b/src/libpanningdsp/panning_gain_matrix.cpp
@@ -99,6 +99,12 @@ PanningGainMatrix::PanningGainMatrix(SignalFlowContext const & context,
  : PanningGainMatrix{ context, name, parent,
     numberOfObjects, numberOfLoudspeakers, initialGains }
 {
+  if( (initialTransitions.numberOfObjects() != numberOfObjects)
+   or (initialTransitions.numberOfLoudspeakers() != numberOfLoudspeakers) )
+  {
+    throw std::invalid_argument( "The parameter \"initialTransitions\" does not match"
+      " the dimension numberOfObjects x numberOfLoudspeakers." );
+  }
   updateTransitions( 0, initialTransitions );
 }
 
diff --git a/src/libpanningdsp/panning_matrix_parameter.cpp b/src/libpanningdsp/panning_matrix_parameter.cpp
index df8d315..3300cd8 100644
--- a/src/libpanningdsp/panning_matrix_parameter.cpp
+++ b/src/libpanningdsp/panning_matrix_parameter.cpp
@@ -102,6 +102,12 @@ PanningMatrixParameter::PanningMatrixParameter(visr::efl::BasicMatrix<SampleType
  , mTimeStamps( createCopy( timeStamps, gains.alignmentElements() ) )
  , mTransitionTimes( createCopy( transitionTimes, gains.alignmentElements() ) )
 {
+  if( (timeStamps.size() != gains.numberOfRows())
+    or (transitionTimes.size() != gains.numberOfRows()) )
+  {
+    throw std::invalid_argument( "PanningMatrixParameter: The number of time stamps"
+      " and transition times must match the number of objects." );
+  }
   mGains.copy( gains );
 }
 
-- 
2.43.0


From 392d74638cd7d6fad6bead06aa96d10c25a07054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:21 +0000
Subject: [PATCH 201/203] fix: a gain transition in the past must affect
 neither other objects nor later blocks

---
 src/libpanningdsp/panning_gain_matrix.cpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/libpanningdsp/panning_gain_matrix.cpp b/src/libpanningdsp/panning_gain_matrix.cpp
index 5c768d1..5c7312b 100644
--- a/src/libpanningdsp/panning_gain_matrix.cpp
+++ b/src/libpanningdsp/panning_gain_matrix.cpp
@@ -266,8 +266,9 @@ void PanningGainMatrix::processParameters()
   if( mGainInput.changed() )
   {
     TimeType const currentTime{ time().sampleCount() };
-    updateTransitions( currentTime, mGainInput.data() );
+    // Reset first, because reporting an invalid time stamp leaves this function.
     mGainInput.resetChanged();
+    updateTransitions( currentTime, mGainInput.data() );
   }
 }
 
@@ -276,13 +277,23 @@ updateTransitions(  TimeType currentTime,
     PanningMatrixParameter const & newParams )
 {
   std::size_t const numObjs{ mTargetGains.numberOfRows() };
+  bool pastTransition{ false };
   for( std::size_t objIdx{ 0 }; objIdx < numObjs; ++objIdx )
   {
+    if( newParams.timeStamps()[objIdx] < currentTime )
+    {
+      pastTransition = true; // Ignore this transition, but not those of the other objects.
+      continue;
+    }
     updateTransition( objIdx, currentTime,
       newParams.timeStamps()[objIdx],
       newParams.transitionTimes()[objIdx],
       newParams.gains().row( objIdx ) );
   }
+  if( pastTransition )
+  {
+    status( StatusMessage::Error, "Time stamp of gain change is in the past." );
+  }
 }
 
 void PanningGainMatrix::updateTransition( std::size_t objIdx,
@@ -295,11 +306,6 @@ void PanningGainMatrix::updateTransition( std::size_t objIdx,
   {
     return;
   }
-  if( startTime < currentTime )
-  {
-    status( StatusMessage::Error, "Time stamp of gain change is in the past." );
-    return;
-  }
   std::size_t const numLsp{ mTargetGains.numberOfColumns() };
   // Special case: we have to update the data members immediately.
   if( startTime == currentTime )
-- 
2.43.0


From ae65347dd24821410e18aa403c41e11568cd80d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:37 +0000
Subject: [PATCH 202/203] fix: a gain transition starting during another one
 must leave the gains before its start unchanged

The gain reached was evaluated at the wrong time, so the gains jumped when
a transition was replaced.
---
 src/libpanningdsp/panning_gain_matrix.cpp | 126 +++++++++-------------
 src/libpanningdsp/panning_gain_matrix.hpp |   9 ++
 2 files changed, 57 insertions(+), 78 deletions(-)

diff --git a/src/libpanningdsp/panning_gain_matrix.cpp b/src/libpanningdsp/panning_gain_matrix.cpp
index 5c7312b..4eea751 100644
--- a/src/libpanningdsp/panning_gain_matrix.cpp
+++ b/src/libpanningdsp/panning_gain_matrix.cpp
@@ -191,48 +191,29 @@ void PanningGainMatrix::processAudio()
       assert( currentTime >= mPreviousTime[ objIdx ] );
       assert( currentTime < mTargetTime[ objIdx ] );
       assert( mPendingTransitions[0].timeStamps()[objIdx] > currentTime );
-      Time::IntegerTimeType const duration{ std::min( 
-        mTargetTime[ objIdx ], blockEndTime ) - currentTime };
+      TimeType const nextStartTime{ mPendingTransitions[0].timeStamps()[ objIdx ] };
+      Time::IntegerTimeType const duration{ std::min( { mTargetTime[ objIdx ],
+        nextStartTime, blockEndTime } ) - currentTime };
       assert( duration > 0 ); // Otherwise this is a logical error,
       processAudioSingleSlope( objIdx, currentTime, bufferOffset, duration, accumulateFlag, 
         0 /*Alignment not guaranteed for arbitrary offsets.*/  );
 
       currentTime += duration;
       bufferOffset += duration;
-      if( currentTime == mTargetTime[objIdx] )
+      if( currentTime == nextStartTime ) // The next transition replaces the current one.
+      {
+        startTransition( objIdx, currentTime,
+          mPendingTransitions[0].transitionTimes()[ objIdx ],
+          mPendingTransitions[0].gains().row( objIdx ) );
+        mPendingTransitions[0].timeStamps()[ objIdx ] = cTimeStampInfinity;
+        mPendingTransitions[0].transitionTimes()[ objIdx ] = cTimeStampInfinity;
+      }
+      else if( currentTime == mTargetTime[objIdx] ) // The gain remains constant.
       {
         mPreviousTime[ objIdx ] = currentTime;
-        TimeType const nextStartTime{ mPendingTransitions[0].timeStamps()[ objIdx ] };
-        if( nextStartTime == currentTime ) // next transition starts immediately
-        {
-          TimeType const transitionTime{ mPendingTransitions[0].transitionTimes()[ objIdx ] };
-          if( transitionTime == 0 )
-          {
-            copyRow( mPendingTransitions[0].gains().row( objIdx ),
-                mPreviousGains.row( objIdx ),
-                numLsp, visr::cVectorAlignmentSamples );
-            mTargetTime[ objIdx ] = cTimeStampInfinity;
-          }
-          else
-          {
-            copyRow( mTargetGains.row( objIdx ), mPreviousGains.row( objIdx ),
-                numLsp, visr::cVectorAlignmentSamples );
-            mTargetTime[ objIdx ] = currentTime + transitionTime;
-          }
-          copyRow( mPendingTransitions[0].gains().row( objIdx ),
-              mTargetGains.row( objIdx ),
-              numLsp, visr::cVectorAlignmentSamples );
-          mPendingTransitions[0].timeStamps()[ objIdx ] = cTimeStampInfinity;
-          mPendingTransitions[0].transitionTimes()[ objIdx ] = cTimeStampInfinity;
-        }
-        else // There's a gap to the next transition
-        {
-          mTargetTime[ objIdx ] = nextStartTime;
-          copyRow( mTargetGains.row( objIdx ), mPreviousGains.row( objIdx ),
-              numLsp, visr::cVectorAlignmentSamples );
-          // mTargetGains remain unchanged.
-
-        }
+        mTargetTime[ objIdx ] = cTimeStampInfinity;
+        copyRow( mTargetGains.row( objIdx ), mPreviousGains.row( objIdx ),
+            numLsp, visr::cVectorAlignmentSamples );
       }
     } // while(true)
   }
@@ -306,62 +287,51 @@ void PanningGainMatrix::updateTransition( std::size_t objIdx,
   {
     return;
   }
-  std::size_t const numLsp{ mTargetGains.numberOfColumns() };
   // Special case: we have to update the data members immediately.
   if( startTime == currentTime )
   {
-    mPreviousTime[ objIdx ] = currentTime;
-    if( duration == 0 ) // Immediate change w/o interpolation (e.g., jump position)
-    {
-      copyRow( gains, mPreviousGains.row( objIdx ), numLsp, 
-        0 /*Do not assume special alignment*/ );
-      copyRow( gains, mTargetGains.row( objIdx ), numLsp, 
-        0 /*Do not assume special alignment*/ );
-      mTargetTime[ objIdx ] = cTimeStampInfinity;
-    }
-    else
-    {
-      // Adjust the current target gains by computing the value at 
-      // startTime
-      GainType const alpha = interpolationRatio( currentTime,
-          mPreviousTime[ objIdx ], mTargetTime[ objIdx ] );
-      // TODO: turn into a vector function.
-      for( std::size_t lspIdx{ 0 }; lspIdx < numLsp; ++lspIdx)
-      {
-        mPreviousGains( objIdx, lspIdx ) = alpha * mTargetGains( objIdx, lspIdx )
-          + (1.0f - alpha ) * mPreviousGains( objIdx, lspIdx );
-      }
-      copyRow( gains, mTargetGains.row( objIdx ), numLsp,
-        0 /*Do not assume special alignment*/ );
-      mTargetTime[ objIdx ] = currentTime + duration;
-    }
+    startTransition( objIdx, startTime, duration, gains );
     // Clear next pending transition
     mPendingTransitions[0].timeStamps()[ objIdx ] = cTimeStampInfinity;
     mPendingTransitions[0].transitionTimes()[ objIdx ] = cTimeStampInfinity;
-    copyRow( mTargetGains.row( objIdx ), mPendingTransitions[0].gains().row( objIdx ), numLsp );
   }
-  else
+  else // The current transition continues until startTime.
   {
-    if( startTime < mTargetTime[ objIdx ] )
-    {
-      // Adjust the current target gains by computing the value at 
-      // startTime
-      GainType const alpha = interpolationRatio( currentTime,
-          mPreviousTime[ objIdx ], mTargetTime[ objIdx ] );
-      std::size_t const numLsp{ mTargetGains.numberOfColumns() };
-      // TODO: turn into a vector function.
-      for( std::size_t lspIdx{ 0 }; lspIdx < numLsp; ++lspIdx)
-      {
-        mTargetGains( objIdx, lspIdx ) = alpha * mTargetGains( objIdx, lspIdx )
-          + (1.0f - alpha ) * mPreviousGains( objIdx, lspIdx );
-      }
-      mTargetTime[ objIdx ] = startTime;
-    }
     mPendingTransitions[0].timeStamps()[ objIdx ] = startTime;
     mPendingTransitions[0].transitionTimes()[ objIdx ] = duration;
     copyRow( gains, mPendingTransitions[0].gains().row( objIdx ),
-      numLsp );
+      mTargetGains.numberOfColumns() );
+  }
+}
+
+void PanningGainMatrix::startTransition( std::size_t objIdx,
+  TimeType startTime,
+  TimeType duration,
+  SampleType const * gains )
+{
+  std::size_t const numLsp{ mTargetGains.numberOfColumns() };
+  if( duration == 0 ) // Immediate change w/o interpolation (e.g., jump position)
+  {
+    copyRow( gains, mPreviousGains.row( objIdx ), numLsp,
+      0 /*Do not assume special alignment*/ );
+    mTargetTime[ objIdx ] = cTimeStampInfinity;
+  }
+  else
+  {
+    // The new transition starts from the gains reached at startTime.
+    GainType const alpha = interpolationRatio( startTime,
+        mPreviousTime[ objIdx ], mTargetTime[ objIdx ] );
+    // TODO: turn into a vector function.
+    for( std::size_t lspIdx{ 0 }; lspIdx < numLsp; ++lspIdx)
+    {
+      mPreviousGains( objIdx, lspIdx ) = alpha * mTargetGains( objIdx, lspIdx )
+        + (1.0f - alpha ) * mPreviousGains( objIdx, lspIdx );
+    }
+    mTargetTime[ objIdx ] = startTime + duration;
   }
+  mPreviousTime[ objIdx ] = startTime;
+  copyRow( gains, mTargetGains.row( objIdx ), numLsp,
+    0 /*Do not assume special alignment*/ );
 }
 
 void PanningGainMatrix::scaleSignal( SampleType const * input, SampleType * output,
diff --git a/src/libpanningdsp/panning_gain_matrix.hpp b/src/libpanningdsp/panning_gain_matrix.hpp
index d5f0731..c95d763 100644
--- a/src/libpanningdsp/panning_gain_matrix.hpp
+++ b/src/libpanningdsp/panning_gain_matrix.hpp
@@ -204,6 +204,15 @@ private:
                          TimeType duration,
                          SampleType const * gains );
 
+  /**
+   * Make a transition the current one, starting from the gains of the
+   * transition in progress at \p startTime.
+   */
+  void startTransition( std::size_t objIndex,
+                        TimeType startTime,
+                        TimeType duration,
+                        SampleType const * gains );
+
   void scaleSignal( SampleType const * input,
                     SampleType * output,
                     std::size_t startIdx,
-- 
2.43.0


From bc7d83fbe3f243d50481503826a10f58db343ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:38 +0000
Subject: [PATCH 203/203] fix: OSC scalar decoder ignores messages without a
 matching argument

Messages whose argument is missing or has another type produced a zero value
instead of being ignored, and a negative value for an unsigned output discarded
the remaining messages of the datagram.
---
 src/librcl/scalar_osc_decoder.cpp | 32 +++++++++++++++++++++++++------
 1 file changed, 26 insertions(+), 6 deletions(-)

diff --git a/src/librcl/scalar_osc_decoder.cpp b/src/librcl/scalar_osc_decoder.cpp
index d57f183..561329b 100644
--- a/src/librcl/scalar_osc_decoder.cpp
+++ b/src/librcl/scalar_osc_decoder.cpp
@@ -74,22 +74,34 @@ void ScalarOscDecoder::process()
         if( mBoolOutput )
         {
           bool val(false);
-          msgPkt->arg().popBool( val );
+          if( not msgPkt->arg().popBool( val ).isOk() )
+          {
+            status( StatusMessage::Warning, "Ignoring OSC message without a matching argument." );
+            continue;
+          }
           mBoolOutput->enqueue( pml::ScalarParameter<bool>(val) );
         }
         if( mIntOutput )
         {
           int val{std::numeric_limits<int>::max()};
-          msgPkt->arg().popInt32( val );
+          if( not msgPkt->arg().popInt32( val ).isOk() )
+          {
+            status( StatusMessage::Warning, "Ignoring OSC message without a matching argument." );
+            continue;
+          }
           mIntOutput->enqueue( pml::ScalarParameter<int>( val ) );
         }
         if( mUIntOutput )
         {
           int val{ std::numeric_limits<int>::max() };
-          msgPkt->arg().popInt32( val );
+          if( not msgPkt->arg().popInt32( val ).isOk() )
+          {
+            status( StatusMessage::Warning, "Ignoring OSC message without a matching argument." );
+            continue;
+          }
           if( val < 0 )
           {
-            status( StatusMessage::Error, "Encountered negative value while decoding unsigned int." );
+            status( StatusMessage::Warning, "Ignoring negative value while decoding unsigned int." );
             continue;
           }
           mUIntOutput->enqueue( pml::ScalarParameter<unsigned int>( val ) );
@@ -97,13 +109,21 @@ void ScalarOscDecoder::process()
         if( mFloatOutput )
         {
           float val{ std::numeric_limits<float>::quiet_NaN() };
-          msgPkt->arg().popFloat( val );
+          if( not msgPkt->arg().popFloat( val ).isOk() )
+          {
+            status( StatusMessage::Warning, "Ignoring OSC message without a matching argument." );
+            continue;
+          }
           mFloatOutput->enqueue( pml::ScalarParameter<float>( val ) );
         }
         if( mDoubleOutput )
         {
           double val{ std::numeric_limits<double>::quiet_NaN() };
-          msgPkt->arg().popDouble( val );
+          if( not msgPkt->arg().popDouble( val ).isOk() )
+          {
+            status( StatusMessage::Warning, "Ignoring OSC message without a matching argument." );
+            continue;
+          }
           mDoubleOutput->enqueue( pml::ScalarParameter<double>( val ) );
         }
       }
-- 
2.43.0

