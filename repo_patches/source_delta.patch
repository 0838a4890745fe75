From f15acf0c42256ffb7b9339aaf3d01ce09a513c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:02 +0000
Subject: [PATCH 001/139] fix: printing an empty ChannelList dereferenced its
 end iterator

---
 src/libvisr/channel_list.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/libvisr/channel_list.cpp b/src/libvisr/channel_list.cpp
index d4f6fb3..74e2ec3 100644
--- a/src/libvisr/channel_list.cpp
+++ b/src/libvisr/channel_list.cpp
@@ -181,6 +181,10 @@ void ChannelList::appendIndex( IndexType index )
 
 std::ostream & operator<<( std::ostream & str, ChannelList const channels )
 {
+  if( channels.size() == 0 )
+  {
+    return str;
+  }
   for( ChannelList::const_iterator runIt(channels.begin());; )
   {
     ChannelList::const_iterator lookAheadIt( runIt );
-- 
2.43.0


From 73c6dd0819225522c7e18207dbe3cb58bc167943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:25 +0000
Subject: [PATCH 002/139] fix: internal signal routing of double signals
 demanded twice the guaranteed alignment

---
 src/librrl/signal_routing_internal.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/librrl/signal_routing_internal.cpp b/src/librrl/signal_routing_internal.cpp
index a379abb..031ddab 100644
--- a/src/librrl/signal_routing_internal.cpp
+++ b/src/librrl/signal_routing_internal.cpp
@@ -57,7 +57,7 @@ void SignalRoutingInternal<SampleType>::process()
   for( std::size_t chIdx(0); chIdx < outputWidth; ++chIdx )
   {
     std::size_t const inIdx = mInputIndices[chIdx];
-    efl::ErrorCode const res = efl::vectorCopy( mInput[inIdx], mOutput[chIdx], blockSize, cVectorAlignmentSamples );
+    efl::ErrorCode const res = efl::vectorCopy( mInput[inIdx], mOutput[chIdx], blockSize, cVectorAlignmentBytes / sizeof( SampleType ) );
     if( res != efl::noError )
     {
       throw std::runtime_error( "rrl::SignalRoutingInternal: Copying of sample vector failed." );
-- 
2.43.0


From 3fd36827b689d4a865d78554c59d967bf9cc8532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:14:27 +0000
Subject: [PATCH 003/139] fix: connections between audio ports of different
 sample type were accepted

---
 src/librrl/integrity_checking.cpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/librrl/integrity_checking.cpp b/src/librrl/integrity_checking.cpp
index e3ca1b4..4ea6d56 100644
--- a/src/librrl/integrity_checking.cpp
+++ b/src/librrl/integrity_checking.cpp
@@ -143,6 +143,11 @@ namespace // unnamed namespace
         result = false;
         continue;
       }
+      if( connection.first.port()->sampleType() != connection.second.port()->sampleType() )
+      {
+        messages << "The send and receive sample types of the connection " << connection.first << "->" << connection.second << " do not match." << std::endl;
+        result = false;
+      }
       if( receivePortEntryIt->second > 0 )
       {
         messages << "Receive port of audio connection " << connection.first << "->" << connection.second << " is connected to more than one sender." << std::endl;
@@ -170,12 +175,6 @@ namespace // unnamed namespace
         result = false;
         continue;
       }
-      if( recEntry.first.port()->sampleType() != recEntry.first.port()->sampleType() )
-      {
-        messages << "The send and receive sample types of the connection " << recEntry.first << "->" << recEntry.second << "do not match.\n";
-        result = false;
-        continue;
-      }
     }
 
     // Ths might be turned into a warning instead, but requiring the user to terminate all dangling outputs reduces potential modelling errors.
-- 
2.43.0


From afe9548c86d0b1b82059f120869573b2632059b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:18:08 +0000
Subject: [PATCH 004/139] fix: several senders of a parameter merging at a
 nested port were silently dropped instead of rejected

---
 src/librrl/parameter_connection_map.cpp | 64 ++++++++++++++++---------
 1 file changed, 42 insertions(+), 22 deletions(-)

diff --git a/src/librrl/parameter_connection_map.cpp b/src/librrl/parameter_connection_map.cpp
index 40c9f69..11503fc 100644
--- a/src/librrl/parameter_connection_map.cpp
+++ b/src/librrl/parameter_connection_map.cpp
@@ -8,8 +8,11 @@
 #include <libvisr/impl/component_implementation.hpp>
 #include <libvisr/impl/parameter_port_base_implementation.hpp>
 
+#include <algorithm>
 #include <ciso646>
 #include <iostream>
+#include <stdexcept>
+#include <vector>
 
 namespace visr
 {
@@ -90,6 +93,43 @@ bool fillRecursive( ParameterConnectionMap & res, impl::ComponentImplementation
 }
 
 
+namespace // unnamed
+{
+
+/**
+ * Recursively trace a placeholder port back to all non-placeholder ports sending to it, and insert a
+ * connection from each of them to the final receiver.
+ * @param trace The placeholder ports visited so far, used to detect closed loops.
+ */
+void resolveSenders( ParameterConnectionMap const & fullConnections,
+                     ParameterConnectionMap::key_type receiver,
+                     std::vector<ParameterConnectionMap::key_type> & trace,
+                     ParameterConnectionMap & flatConnections )
+{
+  auto const senders = fullConnections.equal_range( trace.back() );
+  if( senders.first == senders.second )
+  {
+    throw std::invalid_argument( "Unexpected error: unconnected receive port." );
+  }
+  for( auto senderIt = senders.first; senderIt != senders.second; ++senderIt )
+  {
+    if( not isPlaceholderPort( senderIt->second ) )
+    {
+      flatConnections.insert( std::make_pair( receiver, senderIt->second ) );
+      continue;
+    }
+    if( std::find( trace.begin(), trace.end(), senderIt->second ) != trace.end() )
+    {
+      throw std::runtime_error( "Parameter connections: closed loop detected in placeholder port connections." );
+    }
+    trace.push_back( senderIt->second );
+    resolveSenders( fullConnections, receiver, trace, flatConnections );
+    trace.pop_back();
+  }
+}
+
+} // unnamed namespace
+
 ParameterConnectionMap resolvePlaceholders( ParameterConnectionMap const & fullConnections )
 {
   ParameterConnectionMap flatConnections;
@@ -107,28 +147,8 @@ ParameterConnectionMap resolvePlaceholders( ParameterConnectionMap const & fullC
     }
     else // The sender is a placeholder
     {
-      std::size_t const recursionLimit = fullConnections.size(); // Last line of defence against a closed loop in the flow.
-      std::size_t recursionCount = 1;
-
-      ParameterConnectionMap::const_iterator findIt = fullConnections.find( rawConnection.second );
-      for( ;; )
-      {
-        if( findIt == fullConnections.end() )
-        {
-          throw std::invalid_argument( "Unexpected error: unconnected receive port." );
-        }
-
-        if( not isPlaceholderPort( findIt->second ) )
-        {
-          flatConnections.insert( std::make_pair( rawConnection.first, findIt->second ) );
-          break;
-        }
-        if( ++recursionCount >= recursionLimit )
-        {
-          throw std::runtime_error( "Audio signal connections: closed loop detected in placeholder port connections." );
-        }
-        findIt = fullConnections.find( findIt->second );
-      }
+      std::vector<ParameterConnectionMap::key_type> trace{ rawConnection.second };
+      resolveSenders( fullConnections, rawConnection.first, trace, flatConnections );
     }
   }
 
-- 
2.43.0


From b49912eed5f30e5e5dc55ef8a504094dc3e83d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:20:26 +0000
Subject: [PATCH 005/139] fix: flexible buffer wrapper ignored the output
 sample stride when a host block spans several chunks

---
 src/librrl/flexible_buffer_wrapper.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/librrl/flexible_buffer_wrapper.cpp b/src/librrl/flexible_buffer_wrapper.cpp
index 48dffc4..101b556 100644
--- a/src/librrl/flexible_buffer_wrapper.cpp
+++ b/src/librrl/flexible_buffer_wrapper.cpp
@@ -158,7 +158,8 @@ void FlexibleBufferWrapper::process( SampleType const * captureSamples,
 
     SampleType const * readPtr =
         mOutputBuffer.getReadPointer( 0, mOutputBufferLevel );
-    SampleType * outputWritePtr = playbackSamples + processedFrames;
+    SampleType * outputWritePtr =
+        playbackSamples + processedFrames * playbackSampleStride;
     for( std::size_t chIdx{ 0 }; chIdx < numPlaybackChannels; ++chIdx )
     {
       copyBuffer( readPtr + chIdx * mOutputBuffer.stride(),
-- 
2.43.0


From 1551dd95a4764121a3543b225292850c6e3e9247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:59 +0000
Subject: [PATCH 006/139] fix: MultichannelDelayLine reported the maximum delay
 as its method delay

---
 src/librbbl/multichannel_delay_line.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/librbbl/multichannel_delay_line.cpp b/src/librbbl/multichannel_delay_line.cpp
index 4d9634b..23cd515 100644
--- a/src/librbbl/multichannel_delay_line.cpp
+++ b/src/librbbl/multichannel_delay_line.cpp
@@ -59,13 +59,13 @@ std::size_t MultichannelDelayLine<SampleType>::blockLength() const
 template< typename SampleType >
 SampleType MultichannelDelayLine<SampleType>::methodDelaySeconds() const
 {
-  return cMaxDelaySamples / cSamplingFrequency;
+  return cMethodDelay / cSamplingFrequency;
 }
 
 template< typename SampleType >
 SampleType MultichannelDelayLine<SampleType>::methodDelaySamples() const
 {
-  return cMaxDelaySamples;
+  return cMethodDelay;
 }
 
 template< typename SampleType >
-- 
2.43.0


From 8d8cf0ab9943c02dc00880c0dbb44374a336146a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:59 +0000
Subject: [PATCH 007/139] fix: MultichannelDelayLine buffer lacked the support
 of the interpolation filter at long delays

---
 src/librbbl/multichannel_delay_line.cpp |  2 +-
 src/librbbl/multichannel_delay_line.hpp | 10 +++++-----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/librbbl/multichannel_delay_line.cpp b/src/librbbl/multichannel_delay_line.cpp
index 23cd515..71011bb 100644
--- a/src/librbbl/multichannel_delay_line.cpp
+++ b/src/librbbl/multichannel_delay_line.cpp
@@ -31,9 +31,9 @@ MultichannelDelayLine<SampleType>::MultichannelDelayLine( std::size_t numberOfCh
   , cSamplingFrequency( static_cast<SampleType>(samplingFrequency) )
   , cMaxDelaySamples( std::ceil( maxDelaySeconds * samplingFrequency ) )
   , cMethodDelayPolicy( methodDelayPolicy )
-  , mRingbuffer( numberOfChannels, static_cast<std::size_t>(cMaxDelaySamples)+blockLength, alignment ) // Ideally this would include the implementation delay.
   , mInterpolator( FractionalDelayFactory<SampleType>::create( interpolationMethod, blockLength ) )
   , cMethodDelay( mInterpolator ? mInterpolator->methodDelay() : static_cast<SampleType>(0.0) )
+  , mRingbuffer( numberOfChannels, static_cast<std::size_t>(cMaxDelaySamples + std::ceil( 2 * cMethodDelay ))+blockLength, alignment ) // The interpolators access samples up to twice the method delay beyond the nominal delay.
 {
   if( not mInterpolator )
   {
diff --git a/src/librbbl/multichannel_delay_line.hpp b/src/librbbl/multichannel_delay_line.hpp
index cedeb4b..0c4fb1d 100644
--- a/src/librbbl/multichannel_delay_line.hpp
+++ b/src/librbbl/multichannel_delay_line.hpp
@@ -163,11 +163,6 @@ private:
    */
   MethodDelayPolicy const cMethodDelayPolicy;
 
-  /**
-   * Circular buffer holding the delayed values.
-   */
-  rbbl::CircularBuffer<SampleType> mRingbuffer;
-
   /**
    * The fractional delay algorihm object.
    * @note this needs to be a shared pointer, because the object is dynamically 
@@ -179,6 +174,11 @@ private:
    * The method delay (implementation delay) of the selected fractional delay algorithm in samples.
    */
   SampleType cMethodDelay;
+
+  /**
+   * Circular buffer holding the delayed values. Its length includes the support of the fractional delay algorithm.
+   */
+  rbbl::CircularBuffer<SampleType> mRingbuffer;
 };
 
 } // namespace rbbl
-- 
2.43.0


From decc3c157defb2a65c02ffd35acc721c979f0f3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:59 +0000
Subject: [PATCH 008/139] fix: no fractional delay method was registered for
 double-precision delay lines

---
 src/librbbl/fractional_delay_factory.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/librbbl/fractional_delay_factory.cpp b/src/librbbl/fractional_delay_factory.cpp
index d228ce8..4ee2066 100644
--- a/src/librbbl/fractional_delay_factory.cpp
+++ b/src/librbbl/fractional_delay_factory.cpp
@@ -35,6 +35,7 @@ public:
 };
 
 static TableInitializer<float> initializer;
+static TableInitializer<double> initializerDouble;
 
 } // unnamed namespace
 
-- 
2.43.0


From 559cf03e0637d3f946aebf827c54a315edb39b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:59 +0000
Subject: [PATCH 009/139] fix: interrupted delay and gain transitions restarted
 from swapped values

---
 src/librcl/delay_matrix.cpp | 2 +-
 src/librcl/delay_vector.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/librcl/delay_matrix.cpp b/src/librcl/delay_matrix.cpp
index 5a27d7f..9576abf 100644
--- a/src/librcl/delay_matrix.cpp
+++ b/src/librcl/delay_matrix.cpp
@@ -176,7 +176,7 @@ namespace
                                            std::size_t alignElements )
   {
     // Note: The standard explicitly allows that the output sequence equals one of the input sequences.
-    std::transform( op1, op1+numElements, op2result, op2result, [ratio](ElementType val1, ElementType val2 ){ return ratio*(val2-val1) + val1;} );
+    std::transform( op1, op1+numElements, op2result, op2result, [ratio](ElementType val1, ElementType val2 ){ return ratio*(val1-val2) + val2;} );
     return efl::noError;
   }
 
diff --git a/src/librcl/delay_vector.cpp b/src/librcl/delay_vector.cpp
index 7f4b999..ae4ea22 100644
--- a/src/librcl/delay_vector.cpp
+++ b/src/librcl/delay_vector.cpp
@@ -141,7 +141,7 @@ namespace
                                            std::size_t alignElements )
   {
     // Note: The standard explicitly allows that the output sequence equals one of the input sequences.
-    std::transform( op1, op1+numElements, op2result, op2result, [ratio](ElementType val1, ElementType val2 ){ return ratio*(val2-val1) + val1;} );
+    std::transform( op1, op1+numElements, op2result, op2result, [ratio](ElementType val1, ElementType val2 ){ return ratio*(val1-val2) + val2;} );
     return efl::noError;
   }
 
-- 
2.43.0


From 5b9fd3dde58142adc23e2aa897484f1ab0be49b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:11 +0000
Subject: [PATCH 010/139] fix: GainMatrix jumped to an abandoned target if
 gains were set again before a block was processed

---
 src/librbbl/gain_matrix.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/librbbl/gain_matrix.cpp b/src/librbbl/gain_matrix.cpp
index eab873e..4dba165 100644
--- a/src/librbbl/gain_matrix.cpp
+++ b/src/librbbl/gain_matrix.cpp
@@ -141,10 +141,12 @@ void GainMatrix<ElementType>::setGainsInternal( efl::BasicMatrix<ElementType> co
         // repeated rounding might imply that the target value is not reached at
         // all. This also avoids problems (e.g., performance reduction) due to denormalised
         // floating-point values. 
-        ElementType const newScale{ ratio * (mNextGains( outputIdx, inputIdx ) - mPreviousGains( outputIdx, inputIdx )) };
-        if( std::abs( newScale ) >= std::numeric_limits<ElementType>::epsilon() )
+        // Note that the complete remaining difference is tested: the part covered so far might be
+        // arbitrarily small (e.g., if no block has been processed yet) although the target is far away.
+        ElementType const difference{ mNextGains( outputIdx, inputIdx ) - mPreviousGains( outputIdx, inputIdx ) };
+        if( std::abs( difference ) >= std::numeric_limits<ElementType>::epsilon() )
         {
-          mPreviousGains( outputIdx, inputIdx ) += newScale;
+          mPreviousGains( outputIdx, inputIdx ) += ratio * difference;
         }
         else
         {
-- 
2.43.0


From d419fdd69ff126b107862242c1bb55d0f962deee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:11 +0000
Subject: [PATCH 011/139] fix: GainVector jumped to the target of a running
 transition when a new gain arrived

---
 src/librcl/gain_vector.cpp | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/librcl/gain_vector.cpp b/src/librcl/gain_vector.cpp
index 97bad89..434def9 100644
--- a/src/librcl/gain_vector.cpp
+++ b/src/librcl/gain_vector.cpp
@@ -8,6 +8,7 @@
 
 #include <librbbl/gain_fader.hpp>
 
+#include <algorithm>
 #include <cassert>
 #include <ciso646>
 #include <cmath>
@@ -103,10 +104,22 @@ void GainVector::setGain( efl::BasicVector< SampleType > const & newGains )
     throw std::invalid_argument("GainVector::setGain(): The number of elements in the argument does not match the number of channels.");
   }
 
-  // Copy the current gain value to the previous gain value.
-  if( efl::vectorCopy( mNextGains.data(), mCurrentGains.data(), mNumberOfChannels ) != efl::noError )
+  // The new transition starts from the gain values currently in effect.
+  if( mInterpolationCounter >= mInterpolationPeriods ) // previous transition is completed
   {
-    throw std::runtime_error( "GainVector::setGain(): Copying of the vector elements failed." );
+    if( efl::vectorCopy( mNextGains.data(), mCurrentGains.data(), mNumberOfChannels ) != efl::noError )
+    {
+      throw std::runtime_error( "GainVector::setGain(): Copying of the vector elements failed." );
+    }
+  }
+  else // previous transition is not yet complete.
+  {
+    SampleType const ratio = std::min( static_cast<SampleType>(1.0),
+      static_cast<SampleType>(mInterpolationCounter * period()) / static_cast<SampleType>(mFader->interpolationSamples()) );
+    for( std::size_t chIdx( 0 ); chIdx < mNumberOfChannels; ++chIdx )
+    {
+      mCurrentGains[chIdx] += ratio * (mNextGains[chIdx] - mCurrentGains[chIdx]);
+    }
   }
 
   if (efl::vectorCopy(newGains.data(), mNextGains.data(), mNumberOfChannels) != efl::noError)
-- 
2.43.0


From 100f98be5149c832a1403db40179a7bc73f6d296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:35 +0000
Subject: [PATCH 012/139] fix: gain transitions failed with an alignment error
 for block sizes that are not a multiple of the alignment

---
 src/librbbl/gain_fader.cpp | 16 ++++++++++++++--
 src/librbbl/gain_fader.hpp |  6 ++++++
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/librbbl/gain_fader.cpp b/src/librbbl/gain_fader.cpp
index d8ef10d..cd15a75 100644
--- a/src/librbbl/gain_fader.cpp
+++ b/src/librbbl/gain_fader.cpp
@@ -6,6 +6,9 @@
 
 #include <libvisr/detail/compose_message_string.hpp>
 
+#include <algorithm>
+#include <ciso646>
+
 namespace visr
 {
 namespace rbbl
@@ -40,16 +43,24 @@ std::size_t GainFader<ElementType>::interpolationSamples() const
   return mInterpolationSamples;
 }
 
+template< typename ElementType >
+std::size_t GainFader<ElementType>::blockAlignment() const
+{
+  std::size_t const alignment = mInterpolationRamp.alignmentElements();
+  return ((alignment == 0) or (mBlockSize % alignment == 0)) ? alignment : 0;
+}
+
 template< typename ElementType >
 void GainFader<ElementType>::scale( ElementType const * input, ElementType * output,
                                       ElementType startGain, ElementType endGain,
                                       std::size_t blockIndex ) const
 {
   blockIndex = std::min( blockIndex, mInterpolationPeriods );
+  std::size_t const alignment = blockAlignment();
   efl::ErrorCode res;
   if( (res = efl::vectorRampScaling( input, mInterpolationRamp.data() + blockIndex * mBlockSize,
     output, startGain, endGain-startGain, mBlockSize, false/*accumulate*/,
-    mInterpolationRamp.alignmentElements() )) != efl::noError )
+    alignment )) != efl::noError )
   {
     throw std::runtime_error( detail::composeMessageString( "GainFader: Error during scaling operation: ", efl::errorMessage( res )));
   }
@@ -61,10 +72,11 @@ void GainFader<ElementType>::scaleAndAccumulate( ElementType const * input, Elem
   std::size_t blockIndex ) const
 {
   blockIndex = std::min( blockIndex, mInterpolationPeriods );
+  std::size_t const alignment = blockAlignment();
   efl::ErrorCode res;
   if( (res = efl::vectorRampScaling( input, mInterpolationRamp.data() + blockIndex * mBlockSize,
     outputAcc, startGain, endGain-startGain, mBlockSize, true/*accumulate*/,
-    mInterpolationRamp.alignmentElements() )) != efl::noError )
+    alignment )) != efl::noError )
   {
     throw std::runtime_error( detail::composeMessageString( "GainFader: Error during scaling operation: ", efl::errorMessage( res )));
   }
diff --git a/src/librbbl/gain_fader.hpp b/src/librbbl/gain_fader.hpp
index 0f8baad..d6e9bff 100644
--- a/src/librbbl/gain_fader.hpp
+++ b/src/librbbl/gain_fader.hpp
@@ -99,6 +99,12 @@ private:
   void setupRamp( std::size_t blockSize,
                   std::size_t interpolationSteps );
 
+  /**
+   * Return the alignment (in elements) that is guaranteed for all blocks of the interpolation ramp.
+   * This is zero if the block size is not a multiple of the alignment.
+   */
+  std::size_t blockAlignment() const;
+
   /**
    * The number of samples processed in each invocation of process.
    */
-- 
2.43.0


From 2a81d719f1689c0a11a5ec655837312c9a33f710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:11 +0000
Subject: [PATCH 013/139] fix: convolvers silently dropped all but the first
 partition of a filter for block lengths that are not a multiple of the
 alignment

---
 src/librbbl/core_convolver_uniform.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/librbbl/core_convolver_uniform.cpp b/src/librbbl/core_convolver_uniform.cpp
index 42855b0..d2f33a3 100644
--- a/src/librbbl/core_convolver_uniform.cpp
+++ b/src/librbbl/core_convolver_uniform.cpp
@@ -4,6 +4,7 @@
 
 #include <librbbl/fft_wrapper_factory.hpp>
 
+#include <ciso646>
 #include <complex>
 
 namespace visr
@@ -234,11 +235,13 @@ transformImpulseResponse( SampleType const * ir, std::size_t irLength, Frequency
     std::size_t const endIdx = std::min( (partitionIdx + 1) * blockLength(), irLength ); // STL-like 'one past end' index
     if( endIdx > startIdx )
     {
-      // The following multiply calls assumes that the blocklength is a multiple of the alignment.
+      // The partitions of the impulse response are aligned only if the block length is a multiple of the alignment.
+      std::size_t const minAlignment = std::min( mAlignment, alignment );
+      std::size_t const partitionAlignment = ((minAlignment == 0) or (startIdx % minAlignment == 0)) ? minAlignment : 0;
       // Multiply the the filter by the computed scaling constants to compensate for the FFT normalisation.
-      if( efl::vectorMultiplyConstant( mFilterScalingFactor, ir + startIdx, mTimeDomainTransformBuffer.data(), endIdx - startIdx, std::min( mAlignment, alignment ) ) != efl::noError )
+      if( efl::vectorMultiplyConstant( mFilterScalingFactor, ir + startIdx, mTimeDomainTransformBuffer.data(), endIdx - startIdx, partitionAlignment ) != efl::noError )
       {
-        std::runtime_error( "CoreConvolverUniform::transformImpulseResponse(): Error while copying data." );
+        throw std::runtime_error( "CoreConvolverUniform::transformImpulseResponse(): Error while copying data." );
       }
     }
     FrequencyDomainType * blockResult = result + partitionIdx * mDftRepresentationSizePadded;
-- 
2.43.0


From f66b70c5d170d568959a9e75db7e66959a81afce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:11 +0000
Subject: [PATCH 014/139] fix: rejected filter sets and routing lists discarded
 the filters and routings in use

---
 src/librbbl/core_convolver_uniform.cpp         |  2 +-
 src/librbbl/multichannel_convolver_uniform.cpp | 16 +++++++++++++---
 src/librcl/fir_filter_matrix.cpp               |  3 +--
 3 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/librbbl/core_convolver_uniform.cpp b/src/librbbl/core_convolver_uniform.cpp
index d2f33a3..2dbdaa2 100644
--- a/src/librbbl/core_convolver_uniform.cpp
+++ b/src/librbbl/core_convolver_uniform.cpp
@@ -194,7 +194,6 @@ void CoreConvolverUniform<SampleType>::clearFilters()
 template< typename SampleType >
 void CoreConvolverUniform<SampleType>::initFilters( efl::BasicMatrix<SampleType> const & newFilters )
 {
-  clearFilters();
   if( newFilters.numberOfRows() > maxNumberOfFilterEntries() )
   {
     throw std::invalid_argument( "CoreConvolverUniform::initFilters( ): The initializer exceeds the maximum number of filter entries." );
@@ -203,6 +202,7 @@ void CoreConvolverUniform<SampleType>::initFilters( efl::BasicMatrix<SampleType>
   {
     throw std::invalid_argument( "CoreConvolverUniform::initFilters( ): The initializer exceeds the maximum filter length." );
   }
+  clearFilters();
   std::size_t const numFilters = newFilters.numberOfRows( );
   std::size_t const filterLength = newFilters.numberOfColumns( );
   for( std::size_t filterIdx( 0 ); filterIdx < numFilters; ++filterIdx )
diff --git a/src/librbbl/multichannel_convolver_uniform.cpp b/src/librbbl/multichannel_convolver_uniform.cpp
index cd91426..c31d072 100644
--- a/src/librbbl/multichannel_convolver_uniform.cpp
+++ b/src/librbbl/multichannel_convolver_uniform.cpp
@@ -72,14 +72,24 @@ void MultichannelConvolverUniform<SampleType>::clearRoutingTable( )
 template< typename SampleType>
 void MultichannelConvolverUniform<SampleType>::initRoutingTable( FilterRoutingList const & routings )
 {
-  clearRoutingTable();
   if( routings.size() > maxNumberOfRoutingPoints() )
   {
     throw std::invalid_argument( "MultichannelConvolverUniform:initRoutingTable() exceeds the maximum admissible number of elements " );
   }
-  for( FilterRouting const & v : routings )
+  RoutingTable previousRoutings;
+  previousRoutings.swap( mRoutingTable );
+  try
   {
-    setRoutingEntry( v );
+    for( FilterRouting const & v : routings )
+    {
+      setRoutingEntry( v );
+    }
+  }
+  catch( std::exception const & )
+  {
+    // Keep the existing routings in case of an invalid entry.
+    mRoutingTable.swap( previousRoutings );
+    throw;
   }
   assert( mRoutingTable.size() <= maxNumberOfRoutingPoints() );
 }
diff --git a/src/librcl/fir_filter_matrix.cpp b/src/librcl/fir_filter_matrix.cpp
index 71acad3..f7051dd 100644
--- a/src/librcl/fir_filter_matrix.cpp
+++ b/src/librcl/fir_filter_matrix.cpp
@@ -154,8 +154,7 @@ void FirFilterMatrix::addRoutings( rbbl::FilterRoutingList const & routings )
 
 void FirFilterMatrix::setRoutings( rbbl::FilterRoutingList const & routings )
 {
-  clearRoutings();
-  addRoutings( routings );
+  mConvolver->initRoutingTable( routings );
 }
 
 bool FirFilterMatrix::removeRouting( std::size_t inputIdx, std::size_t outputIdx )
-- 
2.43.0


From 2b9eac59b927bb98cf03f1a133da714ec9026e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:11 +0000
Subject: [PATCH 015/139] fix: removing a filter routing evaluated an erased
 iterator to report success

---
 src/librbbl/crossfading_convolver_uniform.cpp  | 4 +---
 src/librbbl/multichannel_convolver_uniform.cpp | 4 +---
 2 files changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/librbbl/crossfading_convolver_uniform.cpp b/src/librbbl/crossfading_convolver_uniform.cpp
index 2747fcd..8ac8e3b 100644
--- a/src/librbbl/crossfading_convolver_uniform.cpp
+++ b/src/librbbl/crossfading_convolver_uniform.cpp
@@ -258,9 +258,7 @@ bool CrossfadingConvolverUniform< SampleType >::removeRoutingEntry(
     std::size_t inputIdx, std::size_t outputIdx )
 {
   RoutingEntry const testEntry( inputIdx, outputIdx, 0, 0.0f );
-  auto const eraseRange = mRoutingTable.equal_range( testEntry );
-  mRoutingTable.erase( eraseRange.first, eraseRange.second );
-  return eraseRange.first != mRoutingTable.end();
+  return mRoutingTable.erase( testEntry ) > 0;
 }
 
 template< typename SampleType >
diff --git a/src/librbbl/multichannel_convolver_uniform.cpp b/src/librbbl/multichannel_convolver_uniform.cpp
index c31d072..1148202 100644
--- a/src/librbbl/multichannel_convolver_uniform.cpp
+++ b/src/librbbl/multichannel_convolver_uniform.cpp
@@ -137,9 +137,7 @@ template< typename SampleType>
 bool MultichannelConvolverUniform<SampleType>::removeRoutingEntry( std::size_t inputIdx, std::size_t outputIdx )
 {
   RoutingEntry const testEntry( inputIdx, outputIdx, 0, 0.0f );
-  auto const eraseRange = mRoutingTable.equal_range( testEntry );
-  mRoutingTable.erase( eraseRange.first, eraseRange.second );
-  return eraseRange.first != mRoutingTable.end();
+  return mRoutingTable.erase( testEntry ) > 0;
 }
 
 template< typename SampleType>
-- 
2.43.0


From 9e76b26a39b47407aaf29ef1ede8bf4e2a12f61f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:49 +0000
Subject: [PATCH 016/139] fix: an invalid filter or routing message was retried
 in every period, blocking FIR matrices forever

---
 src/librcl/crossfading_fir_filter_matrix.cpp   |  5 +++--
 src/librcl/fir_filter_matrix.cpp               | 11 ++++++-----
 src/librcl/interpolating_fir_filter_matrix.cpp | 13 +++++++------
 3 files changed, 16 insertions(+), 13 deletions(-)

diff --git a/src/librcl/crossfading_fir_filter_matrix.cpp b/src/librcl/crossfading_fir_filter_matrix.cpp
index 132d759..34d02bd 100644
--- a/src/librcl/crossfading_fir_filter_matrix.cpp
+++ b/src/librcl/crossfading_fir_filter_matrix.cpp
@@ -83,13 +83,14 @@ void CrossfadingFirFilterMatrix::process()
     {
       pml::IndexedValueParameter< std::size_t, std::vector< SampleType > > const
           newFilter = mSetFilterInput->front();
+      // Remove the message also if the update fails, otherwise it would be tried again in every period.
+      mSetFilterInput->pop();
 
       try
       {
         // Argument checking is done inside the method.
-        setFilter( newFilter.index(), &newFilter.value()[ 0 ],
+        setFilter( newFilter.index(), newFilter.value().data(),
                    newFilter.value().size() );
-        mSetFilterInput->pop();
       }
       catch( std::exception const & ex )
       {
diff --git a/src/librcl/fir_filter_matrix.cpp b/src/librcl/fir_filter_matrix.cpp
index f7051dd..7abe092 100644
--- a/src/librcl/fir_filter_matrix.cpp
+++ b/src/librcl/fir_filter_matrix.cpp
@@ -80,12 +80,13 @@ void FirFilterMatrix::process()
     while( not mSetFilterInput->empty() )
     {
       pml::IndexedValueParameter<std::size_t, std::vector<SampleType> > const newFilter = mSetFilterInput->front();
+      // Remove the message also if the update fails, otherwise it would be tried again in every period.
+      mSetFilterInput->pop();
 
       try
       {
         // Argument checking is done inside the method.
-        setFilter( newFilter.index(), &newFilter.value()[0], newFilter.value().size() );
-        mSetFilterInput->pop();
+        setFilter( newFilter.index(), newFilter.value().data(), newFilter.value().size() );
       }
       catch( std::exception const & ex )
       {
@@ -98,6 +99,7 @@ void FirFilterMatrix::process()
   if( mAllRoutingsInput and mAllRoutingsInput->changed() )
   {
     rbbl::FilterRoutingList const & routings{ mAllRoutingsInput->data() };
+    mAllRoutingsInput->resetChanged();
     try
     {
       setRoutings( routings );
@@ -106,22 +108,21 @@ void FirFilterMatrix::process()
     {
       status( StatusMessage::Error, "FirFilterMatrix: Error while resetting filter routings: ", ex.what() );
     }
-    mAllRoutingsInput->resetChanged();
   }
   if( mSingleRoutingInput )
   {
     while( not mSingleRoutingInput->empty() )
     {
+      rbbl::FilterRouting const entry{ mSingleRoutingInput->front() };
+      mSingleRoutingInput->pop();
       try
       {
-        rbbl::FilterRouting const & entry{ mSingleRoutingInput->front() };
         addRouting( entry );
       }
       catch( std::exception const & ex )
       {
         status( StatusMessage::Error, "FirFilterMatrix: Error while setting filter routing: ", ex.what() );      
       }      
-      mSingleRoutingInput->pop();
     }
   }
   mConvolver->process( mInput.data(), mInput.channelStrideSamples(), 
diff --git a/src/librcl/interpolating_fir_filter_matrix.cpp b/src/librcl/interpolating_fir_filter_matrix.cpp
index f838f81..4ff3992 100644
--- a/src/librcl/interpolating_fir_filter_matrix.cpp
+++ b/src/librcl/interpolating_fir_filter_matrix.cpp
@@ -97,13 +97,14 @@ void InterpolatingFirFilterMatrix::process()
     {
       pml::IndexedValueParameter< std::size_t, std::vector< SampleType > > const
           newFilter = mSetFilterInput->front();
+      // Remove the message also if the update fails, otherwise it would be tried again in every period.
+      mSetFilterInput->pop();
 
       try
       {
         // Argument checking is done inside the method.
-        setFilter( newFilter.index(), &newFilter.value()[ 0 ],
+        setFilter( newFilter.index(), newFilter.value().data(),
                    newFilter.value().size() );
-        mSetFilterInput->pop();
       }
       catch( std::exception const & ex )
       {
@@ -122,13 +123,13 @@ void InterpolatingFirFilterMatrix::process()
   {
     while( not mInterpolantInput->empty() )
     {
+      rbbl::InterpolationParameter const param = mInterpolantInput->front();
+      mInterpolantInput->pop();
+
       try
       {
-        rbbl::InterpolationParameter const & param = mInterpolantInput->front();
-
-        setInterpolant( param, true/*startTransition*/ );
         // Argument checking is done inside the method.
-        mInterpolantInput->pop();
+        setInterpolant( param, true/*startTransition*/ );
       }
       catch( std::exception const & ex )
       {
-- 
2.43.0


From ca7e736e67cf2c5b72729a1472e339f5b609f5c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:49 +0000
Subject: [PATCH 017/139] fix: crossfading convolver accepted filter indices
 beyond its filters and reloaded filters into the inactive filter set

---
 src/librbbl/crossfading_convolver_uniform.cpp | 26 ++++++++++++++++++-
 src/librbbl/crossfading_convolver_uniform.hpp |  2 +-
 2 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/src/librbbl/crossfading_convolver_uniform.cpp b/src/librbbl/crossfading_convolver_uniform.cpp
index 8ac8e3b..436d337 100644
--- a/src/librbbl/crossfading_convolver_uniform.cpp
+++ b/src/librbbl/crossfading_convolver_uniform.cpp
@@ -4,6 +4,7 @@
 
 #include <libefl/vector_functions.hpp>
 
+#include <algorithm>
 #include <complex>
 #include <stdexcept>
 
@@ -29,7 +30,7 @@ CrossfadingConvolverUniform< SampleType >::CrossfadingConvolverUniform(
                    blockLength,
                    maxFilterLength,
                    2 * maxFilterEntries,
-                   initialFilters,
+                   efl::BasicMatrix< SampleType >(), // Initial filters are set below.
                    alignment,
                    fftImplementation )
  , mMaxNumberOfRoutingPoints( maxRoutingPoints )
@@ -44,6 +45,7 @@ CrossfadingConvolverUniform< SampleType >::CrossfadingConvolverUniform(
  , mCurrentRampBlock( maxFilterEntries, mNumRampBlocks - 1 )
  , mCrossoverRamps( 2, blockLength * mNumRampBlocks, alignment )
 {
+  initFilters( initialFilters );
   initRoutingTable( initialRoutings );
   efl::ErrorCode ret;
   if( ( ret = efl::vectorRamp( mCrossoverRamps.row( 0 ), transitionSamples,
@@ -271,7 +273,17 @@ template< typename SampleType >
 void CrossfadingConvolverUniform< SampleType >::initFilters(
     efl::BasicMatrix< SampleType > const & newFilters )
 {
+  if( newFilters.numberOfRows() > maxNumberOfFilterEntries() )
+  {
+    throw std::invalid_argument(
+        "CrossfadingConvolverUniform::initFilters(): The initializer exceeds "
+        "the maximum number of filter entries." );
+  }
   mCoreConvolver.initFilters( newFilters );
+  // The new filters are loaded into the first filter set, without crossfade.
+  std::fill( mCurrentFilterOutput.begin(), mCurrentFilterOutput.end(), 0 );
+  std::fill( mCurrentRampBlock.begin(), mCurrentRampBlock.end(),
+             mNumRampBlocks - 1 );
 }
 
 template< typename SampleType >
@@ -294,6 +306,12 @@ void CrossfadingConvolverUniform< SampleType >::setImpulseResponse(
 {
   // TODO: Avoid code duplication in setTransformedFilter().
 
+  if( filterIdx >= maxNumberOfFilterEntries() )
+  {
+    throw std::invalid_argument(
+        "CrossfadingConvolverUniform::setImpulseResponse(): filter index exceeds "
+        "number of filters" );
+  }
   std::size_t const oldFilterSet = mCurrentFilterOutput[ filterIdx ];
   std::size_t const newFilterSet = ( oldFilterSet == 0 ) ? 1 : 0;
   std::size_t const newFilterIndex =
@@ -323,6 +341,12 @@ void CrossfadingConvolverUniform< SampleType >::setTransformedFilter(
     bool startTransition,
     std::size_t alignment )
 {
+  if( filterIdx >= maxNumberOfFilterEntries() )
+  {
+    throw std::invalid_argument(
+        "CrossfadingConvolverUniform::setTransformedFilter(): filter index exceeds "
+        "number of filters" );
+  }
   std::size_t const oldFilterSet = mCurrentFilterOutput[ filterIdx ];
   std::size_t const newFilterSet = ( oldFilterSet == 0 ) ? 1 : 0;
   std::size_t const newFilterIndex =
diff --git a/src/librbbl/crossfading_convolver_uniform.hpp b/src/librbbl/crossfading_convolver_uniform.hpp
index 9aff0b0..1e11b59 100644
--- a/src/librbbl/crossfading_convolver_uniform.hpp
+++ b/src/librbbl/crossfading_convolver_uniform.hpp
@@ -112,7 +112,7 @@ public:
 
   std::size_t maxNumberOfFilterEntries() const
   {
-    return mCoreConvolver.maxNumberOfFilterEntries();
+    return mMaxNumFilters; // The core convolver holds two filters for each entry.
   }
 
   std::size_t maxFilterLength() const
-- 
2.43.0


From 4695c4f9d79364b82636bab18e018ae873224c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:50 +0000
Subject: [PATCH 018/139] fix: crossfading convolver failed with an alignment
 error for block lengths that are not a multiple of the alignment

---
 src/librbbl/crossfading_convolver_uniform.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/librbbl/crossfading_convolver_uniform.cpp b/src/librbbl/crossfading_convolver_uniform.cpp
index 436d337..78049de 100644
--- a/src/librbbl/crossfading_convolver_uniform.cpp
+++ b/src/librbbl/crossfading_convolver_uniform.cpp
@@ -141,7 +141,13 @@ void CrossfadingConvolverUniform< SampleType >::processOutputs(
 
     std::size_t const outputAlignment =
         std::min( alignment, mCoreConvolver.alignment() );
-    std::size_t const coreAlignment = mCoreConvolver.alignment();
+    // The blocks of the crossfade ramps are aligned only if the block size is a
+    // multiple of the alignment.
+    std::size_t const coreAlignment =
+        ( mCoreConvolver.alignment() == 0 ||
+          blockSize % mCoreConvolver.alignment() == 0 )
+            ? mCoreConvolver.alignment()
+            : 0;
 
     efl::ErrorCode res;
     std::size_t const rampBlock = mCurrentRampBlock[ routing.filterIdx ];
-- 
2.43.0


From 8168e8fb5dd07bcc563c65680168aaa9d75e39d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:50 +0000
Subject: [PATCH 019/139] fix: exchanging a filter without starting a
 transition replaced the fading-out filter of a running crossfade

---
 src/librbbl/crossfading_convolver_uniform.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/librbbl/crossfading_convolver_uniform.cpp b/src/librbbl/crossfading_convolver_uniform.cpp
index 78049de..1ea4f44 100644
--- a/src/librbbl/crossfading_convolver_uniform.cpp
+++ b/src/librbbl/crossfading_convolver_uniform.cpp
@@ -319,7 +319,10 @@ void CrossfadingConvolverUniform< SampleType >::setImpulseResponse(
         "number of filters" );
   }
   std::size_t const oldFilterSet = mCurrentFilterOutput[ filterIdx ];
-  std::size_t const newFilterSet = ( oldFilterSet == 0 ) ? 1 : 0;
+  // Without starting a transition, the current target filter is replaced, and a
+  // running crossfade continues with this new target.
+  std::size_t const newFilterSet =
+      startTransition ? ( ( oldFilterSet == 0 ) ? 1 : 0 ) : oldFilterSet;
   std::size_t const newFilterIndex =
       ( newFilterSet == 0 ) ? filterIdx : filterIdx + mMaxNumFilters;
 
@@ -354,7 +357,10 @@ void CrossfadingConvolverUniform< SampleType >::setTransformedFilter(
         "number of filters" );
   }
   std::size_t const oldFilterSet = mCurrentFilterOutput[ filterIdx ];
-  std::size_t const newFilterSet = ( oldFilterSet == 0 ) ? 1 : 0;
+  // Without starting a transition, the current target filter is replaced, and a
+  // running crossfade continues with this new target.
+  std::size_t const newFilterSet =
+      startTransition ? ( ( oldFilterSet == 0 ) ? 1 : 0 ) : oldFilterSet;
   std::size_t const newFilterIndex =
       ( newFilterSet == 0 ) ? filterIdx : filterIdx + mMaxNumFilters;
 
-- 
2.43.0


From 8a2c268dc0a5a9bca41441e896e003989528b170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:50 +0000
Subject: [PATCH 020/139] fix: interpolating convolver confused the maximum
 numbers of routings and filters

---
 src/librbbl/interpolating_convolver_uniform.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/librbbl/interpolating_convolver_uniform.cpp b/src/librbbl/interpolating_convolver_uniform.cpp
index d853546..36e19ad 100644
--- a/src/librbbl/interpolating_convolver_uniform.cpp
+++ b/src/librbbl/interpolating_convolver_uniform.cpp
@@ -33,8 +33,8 @@ InterpolatingConvolverUniform< SampleType >::InterpolatingConvolverUniform(
        numberOfOutputs,
        blockLength,
        maxFilterLength,
-       maxFilterEntries,
        maxRoutingPoints,
+       maxRoutingPoints, // One interpolated filter for each routing point
        transitionSamples,
        initialRoutings,
        efl::BasicMatrix< SampleType >(
-- 
2.43.0


From f2340f7d5f97abfb3348da6132ebbd1c5461a015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:50 +0000
Subject: [PATCH 021/139] fix: rejected routing lists discarded the routings of
 crossfading and interpolating convolvers

---
 src/librbbl/crossfading_convolver_uniform.cpp  | 16 +++++++++++++---
 src/librcl/crossfading_fir_filter_matrix.cpp   |  3 +--
 src/librcl/interpolating_fir_filter_matrix.cpp |  3 +--
 3 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/librbbl/crossfading_convolver_uniform.cpp b/src/librbbl/crossfading_convolver_uniform.cpp
index 1ea4f44..5019f74 100644
--- a/src/librbbl/crossfading_convolver_uniform.cpp
+++ b/src/librbbl/crossfading_convolver_uniform.cpp
@@ -197,16 +197,26 @@ template< typename SampleType >
 void CrossfadingConvolverUniform< SampleType >::initRoutingTable(
     FilterRoutingList const & routings )
 {
-  clearRoutingTable();
   if( routings.size() > maxNumberOfRoutingPoints() )
   {
     throw std::invalid_argument(
         "CrossfadingConvolverUniform:initRoutingTable() exceeds the maximum "
         "admissible number of elements " );
   }
-  for( FilterRouting const & v: routings )
+  RoutingTable previousRoutings;
+  previousRoutings.swap( mRoutingTable );
+  try
   {
-    setRoutingEntry( v );
+    for( FilterRouting const & v: routings )
+    {
+      setRoutingEntry( v );
+    }
+  }
+  catch( std::exception const & )
+  {
+    // Keep the existing routings in case of an invalid entry.
+    mRoutingTable.swap( previousRoutings );
+    throw;
   }
   assert( mRoutingTable.size() <= maxNumberOfRoutingPoints() );
 }
diff --git a/src/librcl/crossfading_fir_filter_matrix.cpp b/src/librcl/crossfading_fir_filter_matrix.cpp
index 34d02bd..6326df9 100644
--- a/src/librcl/crossfading_fir_filter_matrix.cpp
+++ b/src/librcl/crossfading_fir_filter_matrix.cpp
@@ -139,8 +139,7 @@ void CrossfadingFirFilterMatrix::addRoutings(
 void CrossfadingFirFilterMatrix::setRoutings(
     rbbl::FilterRoutingList const & routings )
 {
-  clearRoutings();
-  addRoutings( routings );
+  mConvolver->initRoutingTable( routings );
 }
 
 bool CrossfadingFirFilterMatrix::removeRouting( std::size_t inputIdx,
diff --git a/src/librcl/interpolating_fir_filter_matrix.cpp b/src/librcl/interpolating_fir_filter_matrix.cpp
index 4ff3992..28e35b3 100644
--- a/src/librcl/interpolating_fir_filter_matrix.cpp
+++ b/src/librcl/interpolating_fir_filter_matrix.cpp
@@ -179,8 +179,7 @@ void InterpolatingFirFilterMatrix::addRoutings(
 void InterpolatingFirFilterMatrix::setRoutings(
     rbbl::FilterRoutingList const & routings )
 {
-  clearRoutings();
-  addRoutings( routings );
+  mConvolver->initRoutingTable( routings );
 }
 
 bool InterpolatingFirFilterMatrix::removeRouting( std::size_t inputIdx,
-- 
2.43.0


From 3e86923d8140bdb9eb5f5d06b27b7322eb1b23ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:32:55 +0000
Subject: [PATCH 022/139] fix: signal routing texts separated by whitespace
 were rejected

---
 src/libpml/signal_routing_parameter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libpml/signal_routing_parameter.cpp b/src/libpml/signal_routing_parameter.cpp
index 679650a..3f2b28c 100644
--- a/src/libpml/signal_routing_parameter.cpp
+++ b/src/libpml/signal_routing_parameter.cpp
@@ -125,7 +125,7 @@ bool SignalRoutingParameter::parse( std::string const & encoded )
                                   boost::placeholders::_1 ) ] >>
           '=' >> qi::uint_[ boost::bind( &ParseState::setOutIdx, &state,
                                          boost::placeholders::_1 ) ] ) %
-        ( ',' | qi::blank ) ),
+        ( -qi::lit( ',' ) ) ),
       qi::ascii::space );
 
   if( ( not parseRet ) or ( first != last ) )
-- 
2.43.0


From 7e16c06781626825eee2b0afb1a997e29ac01fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:32:56 +0000
Subject: [PATCH 023/139] fix: invalid index sequences raised a string literal
 and ranges near INT_MAX overflowed

---
 src/librbbl/index_sequence.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/librbbl/index_sequence.cpp b/src/librbbl/index_sequence.cpp
index 6b9a782..68a757d 100644
--- a/src/librbbl/index_sequence.cpp
+++ b/src/librbbl/index_sequence.cpp
@@ -51,7 +51,7 @@ IndexSequence::IndexSequence( std::string const & val )
         int const val = mStack[0];
         if( val < 0 )
         {
-          throw("IndexSequence: Indices must be greater or equal than zero.");
+          throw std::invalid_argument( "IndexSequence: Indices must be greater or equal than zero." );
         }
         mContents.push_back( static_cast<IndexType>(val) );
         break;
@@ -62,7 +62,7 @@ IndexSequence::IndexSequence( std::string const & val )
         int const end = mStack[1];
         if( start < 0 or end < 0 )
         {
-          throw("IndexSequence: The start and end values of a range must be greater or equal than zero.");
+          throw std::invalid_argument( "IndexSequence: The start and end values of a range must be greater or equal than zero." );
         }
         IndexType val = static_cast<IndexType>(mStack[0]);
         while( val <= static_cast<IndexType>(end) )
@@ -78,18 +78,18 @@ IndexSequence::IndexSequence( std::string const & val )
         int const end = mStack[2];
         if( start < 0 or end < 0 )
         {
-          throw("IndexSequence: The start and end values of a range must be greater or equal than zero.");
+          throw std::invalid_argument( "IndexSequence: The start and end values of a range must be greater or equal than zero." );
         }
         if( inc == 0 )
         {
-          throw("IndexSequence: The increment of a range must not be zero.");
+          throw std::invalid_argument( "IndexSequence: The increment of a range must not be zero." );
         }
-        int val = start;
+        long long val = start; // Avoids an overflow in the final increment.
         if( inc > 0 )
         {
           while( val <= end )
           {
-            mContents.push_back( val );
+            mContents.push_back( static_cast<IndexType>(val) );
             val += inc;
           }
         }
@@ -97,7 +97,7 @@ IndexSequence::IndexSequence( std::string const & val )
         {
           while( val >= end )
           {
-            mContents.push_back( val );
+            mContents.push_back( static_cast<IndexType>(val) );
             val += inc;
           }
         }
-- 
2.43.0


From 208fabcf584fb13c69cff6b4897dce851f1cac14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:32:56 +0000
Subject: [PATCH 024/139] fix: float sequences lost double precision, raised
 string literals and could loop forever

---
 src/librbbl/float_sequence.cpp | 34 ++++++++++++++++++++++++++--------
 1 file changed, 26 insertions(+), 8 deletions(-)

diff --git a/src/librbbl/float_sequence.cpp b/src/librbbl/float_sequence.cpp
index aa1df4b..7233c00 100644
--- a/src/librbbl/float_sequence.cpp
+++ b/src/librbbl/float_sequence.cpp
@@ -62,6 +62,11 @@ FloatSequence<ElementType>::FloatSequence( std::string const & val )
 
     void finish()
     {
+      if( (mStack.size() > 1) and
+        not std::all_of( mStack.begin(), mStack.end(), []( ElementType v ) { return std::isfinite( v ); } ) )
+      {
+        throw std::invalid_argument( "FloatSequence: The parameters of a range must be finite." );
+      }
       switch( mStack.size() )
       {
       case 0:
@@ -78,7 +83,8 @@ FloatSequence<ElementType>::FloatSequence( std::string const & val )
         ElementType const end = mStack[1];
         while( val <= end )
         {
-          mContents.push_back( val++ );
+          mContents.push_back( val );
+          advance( val, static_cast<ElementType>(1) );
         }
         break;
       }
@@ -90,7 +96,7 @@ FloatSequence<ElementType>::FloatSequence( std::string const & val )
 
         if( std::abs(inc) < std::numeric_limits<ElementType>::epsilon() )
         {
-          throw("FloatSequence: The increment of a range must not be zero.");
+          throw std::invalid_argument( "FloatSequence: The increment of a range must not be zero." );
         }
         ElementType val = start;
         if( inc > 0 )
@@ -98,7 +104,7 @@ FloatSequence<ElementType>::FloatSequence( std::string const & val )
           while( val <= end )
           {
             mContents.push_back( val );
-            val += inc;
+            advance( val, inc );
           }
         }
         else // inc < 0
@@ -106,7 +112,7 @@ FloatSequence<ElementType>::FloatSequence( std::string const & val )
           while( val >= end )
           {
             mContents.push_back( val );
-            val += inc;
+            advance( val, inc );
           }
         }
         break;
@@ -117,16 +123,28 @@ FloatSequence<ElementType>::FloatSequence( std::string const & val )
       mStack.clear();
     }
 
+    /**
+     * Advance to the next value of a range, rejecting increments that are too small
+     * to change the value (in which case the enumeration would never terminate).
+     */
+    static void advance( ElementType & val, ElementType inc )
+    {
+      ElementType const next = val + inc;
+      if( next == val )
+      {
+        throw std::invalid_argument( "FloatSequence: The increment of a range is too small." );
+      }
+      val = next;
+    }
+
     std::vector<ElementType> mStack;
     ContainerType mContents;
   };
   ParseState state;
 
   using namespace boost::placeholders;
-  // TODO: find a workaround around this likely GCC compiler bug which
-  // prevents us from using the completely type-correct version.
-  // auto const atom = ((qi::real_parser<typename ElementType>()[boost::bind( &ParseState::push, &state, _1 )] % qi::char_( ":" ))[boost::bind( &ParseState::finish, &state )] % (qi::char_( ',' )));
-  auto const atom = boost::proto::deep_copy(((qi::float_[boost::bind( &ParseState::push, &state, _1 )] % qi::char_( ":" ))[boost::bind( &ParseState::finish, &state )] % (qi::char_( ',' ))));
+  qi::real_parser<ElementType> const element;
+  auto const atom = boost::proto::deep_copy(((element[boost::bind( &ParseState::push, &state, _1 )] % qi::char_( ":" ))[boost::bind( &ParseState::finish, &state )] % (qi::char_( ',' ))));
   bool const parseRet = qi::phrase_parse( first, last, atom,
     qi::ascii::space );
 
-- 
2.43.0


From 8d540aba98fe393fb3611ccd930114f83cc63e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:32:56 +0000
Subject: [PATCH 025/139] fix: mismatched filter lists in filter routings read
 out of bounds, default gain was zero

---
 src/librbbl/filter_routing.cpp | 7 ++-----
 src/librbbl/filter_routing.hpp | 2 +-
 2 files changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/librbbl/filter_routing.cpp b/src/librbbl/filter_routing.cpp
index aa6d76d..cf661ca 100644
--- a/src/librbbl/filter_routing.cpp
+++ b/src/librbbl/filter_routing.cpp
@@ -92,12 +92,9 @@ FilterRoutingList::FilterRoutingList( std::initializer_list<FilterRouting> const
     }
     // Special case: If both input and output indices are scalar, the filter cpec cannot be non-scalar, because this would mean multiple
     // routings for the same (input,output) combination.
-    if( filterIndices.size( ) != numEntries )
+    if( (filterIndices.size( ) != 1) and( filterIndices.size( ) != numEntries ) )
     {
-      if( (numEntries == 1) and( filterIndices.size( ) != 1 ) )
-      {
-        throw std::invalid_argument( "FilterRoutingList:parseJson: All non-scalar entries must have the same number of indices" );
-      }
+      throw std::invalid_argument( "FilterRoutingList:parseJson: All non-scalar entries must have the same number of indices" );
     }
     // The gainVector entry cannot change the width of the filter routing definition, because that would mean that multiple
     // routings with the same {in,out,filter} but potentially different gains would be created.
diff --git a/src/librbbl/filter_routing.hpp b/src/librbbl/filter_routing.hpp
index 297c6ba..a27a944 100644
--- a/src/librbbl/filter_routing.hpp
+++ b/src/librbbl/filter_routing.hpp
@@ -184,7 +184,7 @@ public:
   void addRouting( FilterRouting::IndexType inputIdx, 
                    FilterRouting::IndexType outputIdx,
                    FilterRouting::IndexType filterIdx,
-                   FilterRouting::GainType gain = 0.0 )
+                   FilterRouting::GainType gain = 1.0 )
   {
     addRouting( FilterRouting( inputIdx, outputIdx, filterIdx, gain) );
   }
-- 
2.43.0


From 37f2a51cade42c3616b8b0f6d9487eaad9fd5580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:32:56 +0000
Subject: [PATCH 026/139] fix: sparse gain routing lists with mismatched
 columns, missing gain, and removal by input and output

---
 src/librbbl/sparse_gain_routing.cpp | 48 +++++++++++++++--------------
 src/librbbl/sparse_gain_routing.hpp |  2 +-
 2 files changed, 26 insertions(+), 24 deletions(-)

diff --git a/src/librbbl/sparse_gain_routing.cpp b/src/librbbl/sparse_gain_routing.cpp
index 6a5da9e..a75a982 100644
--- a/src/librbbl/sparse_gain_routing.cpp
+++ b/src/librbbl/sparse_gain_routing.cpp
@@ -69,33 +69,22 @@ SparseGainRoutingList& SparseGainRoutingList::operator=( const SparseGainRouting
     std::string const entryIdxStr = routingNode.get<std::string>( "index" );
     std::string const rowIdxStr = routingNode.get<std::string>( "row" );
     std::string const columnIdxStr = routingNode.get<std::string>( "column" );
-    std::string const gain = routingNode.get<std::string>( "gain" );
+    std::string const gain = routingNode.get<std::string>( "gain", "1.0" );
 
     IndexSequence const entryIndices( entryIdxStr );
     IndexSequence const rowIndices( rowIdxStr );
     IndexSequence const columnIndices( columnIdxStr );
     FloatSequence<SparseGainRouting::GainType> const gainVector( gain );
 
-    std::size_t numEntries = entryIndices.size( );
-    if( rowIndices.size( ) != numEntries )
+    // The entry indices identify the routing entries, therefore they determine the number of routings.
+    std::size_t const numEntries = entryIndices.size( );
+    if( (rowIndices.size( ) != 1) and( rowIndices.size( ) != numEntries ) )
     {
-      if( numEntries == 1 )
-      {
-        numEntries = entryIndices.size( );
-      }
-      else if( rowIndices.size( ) != 1 )
-      {
-        throw std::invalid_argument( "SparseGainRoutingList:parseJson: All non-scalar entries must have the same number of indices" );
-      }
+      throw std::invalid_argument( "SparseGainRoutingList:parseJson: All non-scalar entries must have the same number of indices" );
     }
-    // Special case: If both input and output indices are scalar, the filter cpec cannot be non-scalar, because this would mean multiple
-    // routings for the same (input,output) combination.
-    if( columnIndices.size( ) != numEntries )
+    if( (columnIndices.size( ) != 1) and( columnIndices.size( ) != numEntries ) )
     {
-      if( (numEntries == 1) and( columnIndices.size( ) != 1 ) )
-      {
-        throw std::invalid_argument( "SparseGainRoutingList:parseJson: All non-scalar entries must have the same number of indices" );
-      }
+      throw std::invalid_argument( "SparseGainRoutingList:parseJson: All non-scalar entries must have the same number of indices" );
     }
     // The gainVector entry cannot change the width of the filter routing definition, because that would mean that multiple
     // routings with the same {in,out,filter} but potentially different gains would be created.
@@ -151,15 +140,28 @@ bool SparseGainRoutingList::removeRouting( SparseGainRouting const & entry )
   return false;
 }
 
+bool SparseGainRoutingList::removeRouting( IndexType const & entryIndex )
+{
+  return mRoutings.erase( SparseGainRouting( entryIndex, SparseGainRouting::cInvalidIndex, SparseGainRouting::cInvalidIndex ) ) > 0;
+}
+
 bool SparseGainRoutingList::removeRouting( SparseGainRouting::IndexType inputIdx, SparseGainRouting::IndexType outputIdx )
 {
-  RoutingsType::const_iterator const findIt = mRoutings.find( SparseGainRouting( inputIdx, outputIdx, SparseGainRouting::cInvalidIndex ) );
-  if( findIt != mRoutings.end() )
+  bool removed{ false };
+  for( RoutingsType::const_iterator it = mRoutings.begin(); it != mRoutings.end(); )
   {
-    mRoutings.erase( findIt );
-    return true;
+    // Inputs correspond to the columns, outputs to the rows of the gain matrix.
+    if( (it->columnIndex == inputIdx) and (it->rowIndex == outputIdx) )
+    {
+      it = mRoutings.erase( it );
+      removed = true;
+    }
+    else
+    {
+      ++it;
+    }
   }
-  return false;
+  return removed;
 }
 
 void SparseGainRoutingList::parseJson( std::string const & encoded )
diff --git a/src/librbbl/sparse_gain_routing.hpp b/src/librbbl/sparse_gain_routing.hpp
index a1eb6cb..79724de 100644
--- a/src/librbbl/sparse_gain_routing.hpp
+++ b/src/librbbl/sparse_gain_routing.hpp
@@ -178,7 +178,7 @@ public:
   void addRouting( SparseGainRouting::IndexType entryIdx, 
                    SparseGainRouting::IndexType rowIdx,
                    SparseGainRouting::IndexType columnIdx,
-                   SparseGainRouting::GainType gain = 0.0f )
+                   SparseGainRouting::GainType gain = 1.0f )
   {
     addRouting( SparseGainRouting( entryIdx, rowIdx, columnIdx, gain) );
   }
-- 
2.43.0


From a757ebee313b100461e22c6ec8673b8219c024f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:36 +0000
Subject: [PATCH 027/139] fix: SignalRouting replaces the routing of an output,
 validates lists and honours the control port argument

---
 src/librcl/signal_routing.cpp | 34 +++++++++++++++-------------------
 1 file changed, 15 insertions(+), 19 deletions(-)

diff --git a/src/librcl/signal_routing.cpp b/src/librcl/signal_routing.cpp
index 9886466..5f50ff4 100644
--- a/src/librcl/signal_routing.cpp
+++ b/src/librcl/signal_routing.cpp
@@ -40,13 +40,8 @@ void SignalRouting::setup( std::size_t inputWidth,
                            pml::SignalRoutingParameter const & initialRouting,
                            bool controlPort /*= false*/)
 {
-  setup( inputWidth, outputWidth );
-  for( auto e : initialRouting )
-  {
-    pml::SignalRoutingParameter::IndexType const in = e.input;
-    pml::SignalRoutingParameter::IndexType const out = e.output;
-    setRouting( in, out );
-  }
+  setup( inputWidth, outputWidth, controlPort );
+  setRouting( initialRouting );
 }
 
 void SignalRouting::process()
@@ -61,15 +56,7 @@ void SignalRouting::process()
       try
       {
         pml::SignalRoutingParameter const & newRoutings = mControlInput->data();
-        RoutingTable tmpRouting;
-        for (auto e : newRoutings)
-        {
-          pml::SignalRoutingParameter::IndexType const in = e.input;
-          pml::SignalRoutingParameter::IndexType const out = e.output;
-          checkRoutingIndexRanges(in, out);
-          tmpRouting.insert( std::make_tuple( out, in ) );
-        }
-        mRoutings.swap(tmpRouting); // strong exception safety.
+        setRouting( newRoutings ); // strong exception safety.
       }
       catch (std::exception const & ex)
       {
@@ -102,20 +89,29 @@ void SignalRouting::process()
 
 void SignalRouting::setRouting( pml::SignalRoutingParameter const & newRouting )
 {
-  mRoutings.clear();
+  RoutingTable tmpRouting;
   for( auto e : newRouting )
   {
     pml::SignalRoutingParameter::IndexType const in = e.input;
     pml::SignalRoutingParameter::IndexType const out = e.output;
     checkRoutingIndexRanges( in, out );
-    mRoutings.insert( std::make_tuple(out,in ) );
+    if( in != pml::SignalRoutingParameter::cInvalidIndex ) // An invalid input index means no routing for this output.
+    {
+      tmpRouting.insert( std::make_tuple( out, in ) );
+    }
   }
+  mRoutings.swap( tmpRouting ); // Keep the previous routings if the new ones are invalid.
 }
 
 void SignalRouting::setRouting( pml::SignalRoutingParameter::IndexType in, pml::SignalRoutingParameter::IndexType out )
 {
   checkRoutingIndexRanges( in, out );
-  mRoutings.insert( std::make_tuple( out, in ) );
+  // Remove an existing routing of this output.
+  mRoutings.erase( mRoutings.lower_bound( RoutingEntry( out, 0 ) ), mRoutings.lower_bound( RoutingEntry( out + 1, 0 ) ) );
+  if( in != pml::SignalRoutingParameter::cInvalidIndex ) // An invalid input index means no routing for this output.
+  {
+    mRoutings.insert( std::make_tuple( out, in ) );
+  }
 }
 
 bool SignalRouting::removeRouting( pml::SignalRoutingParameter::IndexType in, pml::SignalRoutingParameter::IndexType out )
-- 
2.43.0


From 38f66bd505d552ea46aadf6fdd18d53c4a84b774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:36 +0000
Subject: [PATCH 028/139] fix: SparseGainMatrix checks routing lists before
 applying them and starts transitions from the gains in effect

---
 src/librcl/sparse_gain_matrix.cpp | 34 ++++++++++++++++++++++++++-----
 src/librcl/sparse_gain_matrix.hpp |  9 ++++++++
 2 files changed, 38 insertions(+), 5 deletions(-)

diff --git a/src/librcl/sparse_gain_matrix.cpp b/src/librcl/sparse_gain_matrix.cpp
index 7a2e044..27b1f1a 100644
--- a/src/librcl/sparse_gain_matrix.cpp
+++ b/src/librcl/sparse_gain_matrix.cpp
@@ -6,6 +6,7 @@
 
 #include <librbbl/sparse_gain_routing.hpp>
 
+#include <algorithm>
 #include <ciso646>
 
 namespace visr
@@ -56,10 +57,8 @@ void SparseGainMatrix::process()
 {
   if( mRoutingListInput and mRoutingListInput->changed() )
   {
-    mPreviousGains.swap( mNextGains );
+    mRoutingListInput->resetChanged(); // An invalid list must not be reported again in the following periods.
     setRoutings( mRoutingListInput->data() );
-    mRampIndex = 0;
-    mRoutingListInput->resetChanged();
   }
   if( mRoutingPointInput )
   {
@@ -73,9 +72,8 @@ void SparseGainMatrix::process()
   if( mGainInput and mGainInput->changed() )
   {
     pml::VectorParameter<SampleType> const & newGains = mGainInput->data();
-    mNextGains.swap( mPreviousGains );
+    freezeGains();
     mNextGains.assign( newGains );
-    mRampIndex = 0;
     mGainInput->resetChanged();
   }
 
@@ -112,11 +110,37 @@ void SparseGainMatrix::setRoutings( rbbl::SparseGainRoutingList const & newRouti
     {
       status( StatusMessage::Error, "Column index '", r.columnIndex, "' exceeds number of input channels (", numInputs, ")." );
     }
+  }
+  // All entries are valid, so the new list can be applied.
+  freezeGains();
+  for( auto r : newRoutings )
+  {
+    auto const isSamePoint = [&r]( rbbl::SparseGainRouting const & prev )
+    {
+      return prev.entryIndex == r.entryIndex and prev.rowIndex == r.rowIndex and prev.columnIndex == r.columnIndex;
+    };
+    if( std::none_of( mRoutings.begin(), mRoutings.end(), isSamePoint ) )
+    {
+      mPreviousGains[ r.entryIndex ] = 0.0f; // This routing point has not been active before.
+    }
     mNextGains[ r.entryIndex ] = r.gain;
   }
   mRoutings = newRoutings;
 }
 
+void SparseGainMatrix::freezeGains()
+{
+  std::size_t const rampSamples{ mGainRamp.interpolationSamples() };
+  SampleType const ratio = (rampSamples == 0) ? SampleType( 1 )
+    : std::min( SampleType( 1 ), static_cast<SampleType>(mRampIndex * period()) / static_cast<SampleType>(rampSamples) );
+  for( std::size_t idx( 0 ); idx < mNumRoutingPoints; ++idx )
+  {
+    mPreviousGains[idx] = (ratio >= SampleType( 1 )) ? mNextGains[idx]
+      : mPreviousGains[idx] + ratio * (mNextGains[idx] - mPreviousGains[idx]);
+  }
+  mRampIndex = 0;
+}
+
 SparseGainMatrix::ControlPortConfig operator&( SparseGainMatrix::ControlPortConfig lhs,
   SparseGainMatrix::ControlPortConfig rhs )
 {
diff --git a/src/librcl/sparse_gain_matrix.hpp b/src/librcl/sparse_gain_matrix.hpp
index c50f0a1..443b74e 100644
--- a/src/librcl/sparse_gain_matrix.hpp
+++ b/src/librcl/sparse_gain_matrix.hpp
@@ -84,8 +84,17 @@ public:
   void process( ) override;
 
 private:
+  /**
+   * Replace the list of routing points.
+   * The list is checked completely before any of its entries is applied.
+   */
   void setRoutings( rbbl::SparseGainRoutingList const & newRoutings );
 
+  /**
+   * Start a new transition, using the gains reached within the current transition as start values.
+   */
+  void freezeGains();
+
   efl::BasicVector<SampleType> mPreviousGains;
 
   efl::BasicVector<SampleType> mNextGains;
-- 
2.43.0


From 530f07e21ec6dd69d9145d7ddb4f31c693723b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:41 +0000
Subject: [PATCH 029/139] fix: x86 vectorMultiplyConstantAddInplace checks
 alignment and supports unaligned accumulators

---
 src/libefl/intel_x86_64/vector_multiply_add.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/libefl/intel_x86_64/vector_multiply_add.cpp b/src/libefl/intel_x86_64/vector_multiply_add.cpp
index 0958bbb..db59588 100644
--- a/src/libefl/intel_x86_64/vector_multiply_add.cpp
+++ b/src/libefl/intel_x86_64/vector_multiply_add.cpp
@@ -345,6 +345,9 @@ ErrorCode vectorMultiplyConstantAddInplace<float, Feature::VISR_SIMD_FEATURE>( f
 					    std::size_t numElements,
 					    std::size_t alignment /*= 0*/ )
 {
+  if( not checkAlignment( factor, alignment ) ) return alignmentError;
+  if( not checkAlignment( accumulator, alignment ) ) return alignmentError;
+
   float const * x = factor;
   float * y = accumulator;
   std::size_t cnt = numElements;
@@ -410,7 +413,7 @@ ErrorCode vectorMultiplyConstantAddInplace<float, Feature::VISR_SIMD_FEATURE>( f
         __m128 mulRes = _mm_mul_ps( a, c );
         acc = _mm_add_ps( mulRes, acc );
 #endif
-    _mm_store_ps( y, acc );
+    _mm_storeu_ps( y, acc );
     y += 4;
   }
   while( cnt > 0 ) // Remaining scalar elements
@@ -438,6 +441,9 @@ ErrorCode vectorMultiplyConstantAddInplace<std::complex<float>, Feature::VISR_SI
 					    std::size_t numElements,
 					    std::size_t alignment /*= 0*/ )
 {
+  if( not checkAlignment( factor, alignment ) ) return alignmentError;
+  if( not checkAlignment( accumulator, alignment ) ) return alignmentError;
+
   float const * x = reinterpret_cast<float const *>(factor);
   float * y = reinterpret_cast<float *>(accumulator);
   std::size_t cnt = numElements;
-- 
2.43.0


From 6ef58eb9288a92e2ab18cf023ce42fa1299d5be8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:41 +0000
Subject: [PATCH 030/139] fix: single-element vectorRamp meets in the middle if
 both or none of the ends are included

---
 src/libefl/reference/vector_functions_impl.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/libefl/reference/vector_functions_impl.hpp b/src/libefl/reference/vector_functions_impl.hpp
index 3455d68..63a5a3c 100644
--- a/src/libefl/reference/vector_functions_impl.hpp
+++ b/src/libefl/reference/vector_functions_impl.hpp
@@ -71,7 +71,10 @@ ErrorCode vectorRamp( T * const dest, std::size_t numElements, T startVal, T end
     {
       dest[0] = static_cast<T>(0.5f)*(startVal+endVal);
     }
-    dest[0] = startInclusive ? startVal : endVal;
+    else
+    {
+      dest[0] = startInclusive ? startVal : endVal;
+    }
     return noError;
   }
   std::size_t const numSteps = numElements + 1 - (startInclusive ? 1 : 0) - (endInclusive ? 1 : 0);
-- 
2.43.0


From 379196b274a47a027e78ec78a1d0dc68e10770c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:59:46 +0000
Subject: [PATCH 031/139] fix: time-frequency transforms with several hops per
 period, unaligned hops, short or overlong windows

---
 .../time_frequency_inverse_transform.cpp      | 32 +++++++++++--------
 src/librcl/time_frequency_transform.cpp       | 16 +++++++---
 2 files changed, 30 insertions(+), 18 deletions(-)

diff --git a/src/librcl/time_frequency_inverse_transform.cpp b/src/librcl/time_frequency_inverse_transform.cpp
index 4ec185f..724cf51 100644
--- a/src/librcl/time_frequency_inverse_transform.cpp
+++ b/src/librcl/time_frequency_inverse_transform.cpp
@@ -58,9 +58,9 @@ TimeFrequencyInverseTransform::TimeFrequencyInverseTransform(
  , cNumberOfDftBins(
        pml::TimeFrequencyParameter< SampleType >::numberOfBinsRealToComplex(
            dftSize ) )
- , cFramesPerPeriod( period() / hopSize )
+ , cFramesPerPeriod( hopSize == 0 ? 0 : period() / hopSize )
  , cHopSize( hopSize )
- , mAccumulationBuffer( cNumberOfChannels, dftSize - cHopSize, cAlignment )
+ , mAccumulationBuffer( cNumberOfChannels, dftSize > hopSize ? dftSize - hopSize : 0, cAlignment )
  , mFftWrapper( rbbl::FftWrapperFactory< SampleType >::create(
        fftImplementation, dftSize, cAlignment ) )
  , mCalcBuffer( dftSize, cAlignment )
@@ -72,12 +72,18 @@ TimeFrequencyInverseTransform::TimeFrequencyInverseTransform(
                cNumberOfDftBins, numberOfChannels, cFramesPerPeriod ) )
  , mOutput( "out", *this, numberOfChannels )
 {
-  if( period() % hopSize != 0 )
+  if( ( hopSize == 0 ) or ( period() % hopSize != 0 ) )
   {
     throw std::invalid_argument(
         "TimeFrequencyInverseTransform: Invalid hop size (no integer number of "
         "hops per audio processing period)." );
   }
+  if( dftSize < hopSize )
+  {
+    throw std::invalid_argument(
+        "TimeFrequencyInverseTransform: The hop size must not exceed the DFT "
+        "size." );
+  }
 }
 
 TimeFrequencyInverseTransform::~TimeFrequencyInverseTransform() = default;
@@ -110,6 +116,15 @@ void TimeFrequencyInverseTransform::process()
             "TimeFrequencyInverseTransform: Updating of output accumulator "
             "failed." );
       }
+      // Copy the completed samples (one hop) to the output port.
+      // Also applies the DFT scaling.
+      res = efl::vectorMultiplyConstant( cScalingFactor, mCalcBuffer.data(),
+        mOutput[ channelIdx ] + frameIdx * cHopSize, cHopSize );
+      if( res != efl::noError )
+      {
+        throw std::runtime_error(
+            "TimeFrequencyInverseTransform: Error while copying output data." );
+      }
       // Copy the output buffer back into storage (skip first block to implement
       // the shift)
       if( ( res = efl::vectorCopy( mCalcBuffer.data() + cHopSize,
@@ -120,17 +135,6 @@ void TimeFrequencyInverseTransform::process()
             "TimeFrequencyInverseTransform: Storing partial results failed." );
       }
     }
-    // Copy first portion of accumulated result to output port.
-    // Also applies the DFT scaling.
-    // if( ( res = efl::vectorCopy( mCalcBuffer.data(), mOutput[ channelIdx ],
-    //                              period(), cAlignment ) ) != efl::noError )
-    if( ( res = efl::vectorMultiplyConstant( cScalingFactor,
-        mCalcBuffer.data(), mOutput[ channelIdx ],
-        period(), cAlignment ) ) != efl::noError )
-    {
-      throw std::runtime_error(
-          "TimeFrequencyInverseTransform: Error while copying output data." );
-    }
   }
 }
 
diff --git a/src/librcl/time_frequency_transform.cpp b/src/librcl/time_frequency_transform.cpp
index 32b8405..f6ae526 100644
--- a/src/librcl/time_frequency_transform.cpp
+++ b/src/librcl/time_frequency_transform.cpp
@@ -57,7 +57,8 @@ std::size_t inputBufferSize( std::size_t windowLen,
         "The period size must be an integer multiple of the hop size." );
   }
   std::size_t const hopsPerPeriod{ period / hopSize };
-  return windowLen + ( hopsPerPeriod - 1 ) * hopSize;
+  // The buffer must also be able to hold a complete period.
+  return std::max( windowLen + ( hopsPerPeriod - 1 ) * hopSize, period );
 }
 
 } // unnamed namespace
@@ -100,7 +101,7 @@ TimeFrequencyTransform::TimeFrequencyTransform(
  , cDftSize( dftSize )
  , cNumberOfDftBins( pml::TimeFrequencyParameter<SampleType>::numberOfBinsRealToComplex( dftSize ) )
  , cWindowLength( window.size() )
- , cFramesPerPeriod( context.period() / hopSize )
+ , cFramesPerPeriod( hopSize == 0 ? 0 : context.period() / hopSize )
  , cHopSize( hopSize )
  , mInputBuffer( numberOfChannels,
                  inputBufferSize( window.size(), hopSize, period() ),
@@ -122,6 +123,12 @@ TimeFrequencyTransform::TimeFrequencyTransform(
         "TimeFrequencyTransform: Invalid hop size (no integer number of hops "
         "per audio processing period)." );
   }
+  if( window.size() > dftSize )
+  {
+    throw std::invalid_argument(
+        "TimeFrequencyTransform: The window must not be longer than the DFT "
+        "size." );
+  }
   efl::vectorZero( mCalcBuffer.data(), mCalcBuffer.size(),
                    mCalcBuffer.alignmentElements() );
 
@@ -154,7 +161,7 @@ TimeFrequencyTransform::TimeFrequencyTransform(
   // the input signal with zeros for the first transforms.
   if( dftSize > hopSize )
   {
-    std::size_t const padSamples{ cDftSize - hopSize };
+    std::size_t const padSamples{ std::min( cDftSize - hopSize, mInputBuffer.length() ) };
     efl::BasicVector< SampleType > initData( padSamples, cAlignment );
     initData.zeroFill();
     mInputBuffer.write(
@@ -179,7 +186,8 @@ void TimeFrequencyTransform::process()
     {
       efl::ErrorCode res = efl::vectorMultiply(
           mInputBuffer.getReadPointer( channelIndex, blockStartIndex ),
-          mWindow.data(), mCalcBuffer.data(), cWindowLength, cAlignment );
+          mWindow.data(), mCalcBuffer.data(), cWindowLength,
+          0 /* The read position is not aligned in general.*/ );
       if( res != efl::noError )
       {
         throw std::runtime_error(
-- 
2.43.0


From ef2923b9240bfdc77e9ef071d7c9471c917f0aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:59:46 +0000
Subject: [PATCH 032/139] fix: matching normalisation of the transforms in
 TimeFrequencyFeedthrough

---
 src/libsignalflows/time_frequency_feedthrough.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libsignalflows/time_frequency_feedthrough.cpp b/src/libsignalflows/time_frequency_feedthrough.cpp
index ebc011c..771b4f8 100644
--- a/src/libsignalflows/time_frequency_feedthrough.cpp
+++ b/src/libsignalflows/time_frequency_feedthrough.cpp
@@ -18,7 +18,8 @@ TimeFrequencyFeedthrough::TimeFrequencyFeedthrough( SignalFlowContext const & co
 #ifndef JUST_FEEDTHROUGH
   // Use default FFT implementation
  , mForwardTransform( context, "ForwardTransform", this, numberOfChannels, dftSize, windowLength, hopSize )
- , mInverseTransform( context, "InverseTransform", this, numberOfChannels, dftSize, hopSize )
+ , mInverseTransform( context, "InverseTransform", this, numberOfChannels, dftSize, hopSize,
+                      "default", rcl::TimeFrequencyInverseTransform::Normalisation::Unitary ) // Same normalisation as the forward transform.
 #endif
  , mInput( "input", *this )
  , mOutput( "output", *this )
-- 
2.43.0


From f6bac69378c50b2a77c7f2d3d7d404f43846d000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:11:41 +0000
Subject: [PATCH 033/139] fix: BiquadIirFilter without initial coefficients is
 flat as documented, a rejected EQ matrix fails a single period

---
 src/librcl/biquad_iir_filter.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/librcl/biquad_iir_filter.cpp b/src/librcl/biquad_iir_filter.cpp
index 24a08fe..db79377 100644
--- a/src/librcl/biquad_iir_filter.cpp
+++ b/src/librcl/biquad_iir_filter.cpp
@@ -46,6 +46,16 @@ BiquadIirFilter::BiquadIirFilter( SignalFlowContext const & context,
            cVectorAlignmentSamples )
 {
   mState.zeroFill();
+  rbbl::BiquadCoefficient< SampleType > const flat;
+  for( std::size_t channelIdx( 0 ); channelIdx < cNumberOfChannels;
+       ++channelIdx )
+  {
+    for( std::size_t biquadIdx( 0 ); biquadIdx < cNumberOfBiquadSections;
+         ++biquadIdx )
+    {
+      setCoefficientsInternal( channelIdx, biquadIdx, flat );
+    }
+  }
 }
 
 BiquadIirFilter::BiquadIirFilter(
@@ -210,8 +220,8 @@ void BiquadIirFilter::process()
 {
   if( mEqInput and mEqInput->changed() )
   {
-    setCoefficientMatrix( mEqInput->data() );
     mEqInput->resetChanged();
+    setCoefficientMatrix( mEqInput->data() );
   }
   std::size_t const numSamples{ period() };
   std::size_t const alignment{ mInput.alignmentSamples() };
-- 
2.43.0


From 730b4aadfe85948536ebba0e55ef17277137160f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:11:41 +0000
Subject: [PATCH 034/139] fix: XML output of biquad coefficients, JSON output
 of biquad matrices, ragged matrices are rejected

---
 src/librbbl/biquad_coefficient.cpp | 51 ++++++++++++++++++++----------
 1 file changed, 34 insertions(+), 17 deletions(-)

diff --git a/src/librbbl/biquad_coefficient.cpp b/src/librbbl/biquad_coefficient.cpp
index c2c512a..4864e25 100644
--- a/src/librbbl/biquad_coefficient.cpp
+++ b/src/librbbl/biquad_coefficient.cpp
@@ -172,7 +172,7 @@ void BiquadCoefficient<CoeffType>::writeJson( std::basic_ostream<char> & stream
     write_json( stream, tree);
   } catch (std::exception const & ex)
   {
-    throw( detail::composeMessageString( "Error while writing BiquadCoefficient message to JSON: ", ex.what() ) );
+    throw std::invalid_argument( detail::composeMessageString( "Error while writing BiquadCoefficient message to JSON: ", ex.what() ) );
   }
 }
 
@@ -187,21 +187,36 @@ void BiquadCoefficient<CoeffType>::writeJson( std::string & str ) const
 template< typename CoeffType >
 void BiquadCoefficient<CoeffType>::writeXml( boost::property_tree::ptree & tree ) const
 {
-  // TODO: implement me!
-  assert( false );
+  tree.put( "<xmlattr>.b0", b0() );
+  tree.put( "<xmlattr>.b1", b1() );
+  tree.put( "<xmlattr>.b2", b2() );
+  tree.put( "<xmlattr>.a1", a1() );
+  tree.put( "<xmlattr>.a2", a2() );
 }
 
 template< typename CoeffType >
 void BiquadCoefficient<CoeffType>::writeXml( std::basic_ostream<char> & stream ) const
 {
+  boost::property_tree::ptree child;
+  writeXml( child );
   boost::property_tree::ptree tree;
-  writeJson( tree );
-
+  tree.add_child( "biquad", child );
+  try
+  {
+    write_xml( stream, tree );
+  }
+  catch( std::exception const & ex )
+  {
+    throw std::invalid_argument( detail::composeMessageString( "Error while writing BiquadCoefficient message to XML: ", ex.what() ) );
+  }
 }
 
 template< typename CoeffType >
 void BiquadCoefficient<CoeffType>::writeXml( std::string & str ) const
 {
+  std::stringstream stream;
+  writeXml( stream );
+  str = stream.str();
 }
 
 ///////////////////////////////////////////////////////////////////////////////
@@ -374,15 +389,21 @@ void BiquadCoefficientList<CoeffType>::writeJson( std::string & str ) const
 template< typename CoeffType >
 void BiquadCoefficientList<CoeffType>::writeXml( boost::property_tree::ptree & tree ) const
 {
-  // TODO: implement me!
-  assert( false );
+  for( std::size_t idx( 0 ); idx < size(); ++idx )
+  {
+    boost::property_tree::ptree child;
+    at( idx ).writeXml( child );
+    tree.add_child( "biquad", child );
+  }
 }
 
 template< typename CoeffType >
 void BiquadCoefficientList<CoeffType>::writeXml( std::basic_ostream<char> & stream ) const
 {
+  boost::property_tree::ptree specNode;
+  writeXml( specNode );
   boost::property_tree::ptree tree;
-  writeXml( tree );
+  tree.add_child( "filterSpec", specNode );
   try
   {
     write_xml( stream, tree );
@@ -469,10 +490,8 @@ void BiquadCoefficientMatrix<CoeffType>::setFilter( std::size_t filterIdx, Biqua
     throw std::invalid_argument( "BiquadCoefficientMatrix::setFilter(): The number index exceeds maximum admissible value." );
   }
   BiquadCoefficientList<CoeffType> & row = mRows[filterIdx];
-  std::copy( &newFilter[0], &newFilter[0] + newFilter.size(), &row[0] );
-  std::fill_n( &row[0] + newFilter.size(),
-    numberOfSections()
-    - newFilter.size(), BiquadCoefficient<CoeffType>() );
+  std::fill( std::copy( newFilter.begin(), newFilter.end(), row.begin() ),
+    row.end(), BiquadCoefficient<CoeffType>() );
 }
 
 template< typename CoeffType >
@@ -554,7 +573,7 @@ void BiquadCoefficientMatrix<CoeffType>::loadJson( boost::property_tree::ptree c
     assert( numBiquads != unInitMarker ); // Check that initialisation is performed during the first run.
     if( rowFilters.size() != numBiquads )
     {
-      std::invalid_argument( "BiquadCoefficientMatrix::loadJSON(): Encountered matrix rows with differing sizes." );
+      throw std::invalid_argument( "BiquadCoefficientMatrix::loadJSON(): Encountered matrix rows with differing sizes." );
     }
     setFilter( rowIdx, rowFilters );
   }
@@ -627,14 +646,12 @@ void BiquadCoefficientMatrix<CoeffType>::loadXml( std::string const & str )
 template< typename CoeffType >
 void BiquadCoefficientMatrix<CoeffType>::writeJson( boost::property_tree::ptree & tree ) const
 {
-#if 0
-  for( std::size_t idx( 0 ); idx < size(); ++idx )
+  for( BiquadCoefficientList<CoeffType> const & row : mRows )
   {
     boost::property_tree::ptree child;
-    at( idx ).writeJson( child );
+    row.writeJson( child );
     tree.push_back( std::make_pair( "", child ) );
   }
-#endif
 }
 
 template< typename CoeffType >
-- 
2.43.0


From 1e7edba769a45ac828d0a7648385634e928a6025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:11:41 +0000
Subject: [PATCH 035/139] fix: JSON and XML conversion of parametric IIR
 coefficients

---
 src/librbbl/parametric_iir_coefficient.cpp | 35 ++++++++++++----------
 1 file changed, 19 insertions(+), 16 deletions(-)

diff --git a/src/librbbl/parametric_iir_coefficient.cpp b/src/librbbl/parametric_iir_coefficient.cpp
index 38d5732..78d50cfc 100644
--- a/src/librbbl/parametric_iir_coefficient.cpp
+++ b/src/librbbl/parametric_iir_coefficient.cpp
@@ -234,11 +234,12 @@ void ParametricIirCoefficient< CoefficientType >::loadJson( std::string const &
 }
 
 template< typename CoefficientType >
-void ParametricIirCoefficient< CoefficientType >::loadXml( boost::property_tree::ptree const & tree )
+void ParametricIirCoefficient< CoefficientType >::loadXml( boost::property_tree::ptree const & doc )
 {
-  boost::property_tree::write_xml( std::cout, tree );
+  // Accept both the element itself and a document containing it.
+  boost::property_tree::ptree const & tree = doc.count( "eq" ) == 0 ? doc : doc.get_child( "eq" );
 
-  std::string const & typeStr = tree.get<std::string>( "<xmlattr>.type" );
+  std::string const typeStr = tree.get<std::string>( "<xmlattr>.type" );
   Type const typeId  = stringToTypeId( typeStr );
   CoefficientType const frequency = tree.get<CoefficientType>( "<xmlattr>.f" );
   CoefficientType const quality = tree.get<CoefficientType>( "<xmlattr>.q" );
@@ -267,16 +268,8 @@ void ParametricIirCoefficient<CoefficientType>::loadXml( std::basic_istream<char
 template< typename CoefficientType >
 void ParametricIirCoefficient<CoefficientType>::loadXml( std::string const & str )
 {
-  boost::property_tree::ptree tree;
-  try
-  {
-    read_xml( str, tree );
-  }
-  catch( std::exception const & ex )
-  {
-    throw std::invalid_argument( std::string( "Error while parsing a XML ParametricIirCoefficient node: " ) + ex.what() );
-  }
-  loadXml( tree );
+  std::stringstream stream( str );
+  loadXml( stream );
 }
 
 template< typename CoefficientType >
@@ -296,6 +289,14 @@ void ParametricIirCoefficient< CoefficientType >::writeJson( std::basic_ostream<
 {
   boost::property_tree::ptree tree;
   writeJson( tree );
+  try
+  {
+    boost::property_tree::write_json( stream, tree );
+  }
+  catch( std::exception const & ex )
+  {
+    throw std::invalid_argument( std::string( "Error while writing a ParametricIirCoefficient to JSON: " ) + ex.what() );
+  }
 }
 
 template< typename CoefficientType >
@@ -321,8 +322,10 @@ void ParametricIirCoefficient< CoefficientType >::writeXml( boost::property_tree
 template< typename CoefficientType >
 void ParametricIirCoefficient< CoefficientType >::writeXml( std::basic_ostream<char> & stream ) const
 {
+  boost::property_tree::ptree child;
+  writeXml( child );
   boost::property_tree::ptree tree;
-  writeXml( tree );
+  tree.add_child( "eq", child );
   boost::property_tree::write_xml( stream, tree );
 }
 
@@ -418,7 +421,7 @@ void ParametricIirCoefficientList< CoefficientType >::writeJson( boost::property
   {
     boost::property_tree::ptree child;
     el.writeJson( child );
-    tree.add_child("", child ); // Adding unnamed childs creates a JSON array.
+    tree.push_back( std::make_pair( "", child ) ); // Adding unnamed childs creates a JSON array.
   }
 }
 
@@ -451,7 +454,7 @@ void ParametricIirCoefficientList< CoefficientType >::writeXml( boost::property_
   for( Element const & el : *this )
   {
     boost::property_tree::ptree child;
-    el.writeJson( child );
+    el.writeXml( child );
     tree.add_child( "eq", child ); // XML needs named nodes
   }
 }
-- 
2.43.0


From 6deb7c30a1a419f8dc09622ba3cbe06ea323acc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:21 +0000
Subject: [PATCH 036/139] fix: equalisers of audio objects are encoded as JSON
 array

---
 src/libobjectmodel/object_parser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libobjectmodel/object_parser.cpp b/src/libobjectmodel/object_parser.cpp
index 1292fe6..aa63af8 100644
--- a/src/libobjectmodel/object_parser.cpp
+++ b/src/libobjectmodel/object_parser.cpp
@@ -74,7 +74,7 @@ ObjectParser::~ObjectParser() = default;
   if( !obj.eqCoefficients().empty() )
   {
     boost::property_tree::ptree eqNode;
-    obj.eqCoefficients().writeXml( eqNode );
+    obj.eqCoefficients().writeJson( eqNode );
     tree.add_child( "eq", eqNode );
   }
 }
-- 
2.43.0


From f9e2bbedf431fb12152424e714f3f71bdcec5071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:18:06 +0000
Subject: [PATCH 037/139] fix: number of frames of an empty time-frequency
 parameter divided by zero

---
 src/libpml/time_frequency_parameter.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libpml/time_frequency_parameter.hpp b/src/libpml/time_frequency_parameter.hpp
index 7991510..f6ed1cf 100644
--- a/src/libpml/time_frequency_parameter.hpp
+++ b/src/libpml/time_frequency_parameter.hpp
@@ -131,7 +131,7 @@ public:
   /**
    * Return the number of time/frequency frames in a single TimeFrequencyParameter message.
    */
-  std::size_t numberOfFrames() const { return mData.numberOfRows() / mNumberOfChannels; }
+  std::size_t numberOfFrames() const { return mNumberOfChannels == 0 ? 0 : mData.numberOfRows() / mNumberOfChannels; }
 
   /**
    * Return the stride (in number of complex elements) between successive audio channels within the same frame.
-- 
2.43.0


From 1ecb519fe0ec6480be327a01a8a7d8902cdd2ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:01 +0000
Subject: [PATCH 038/139] fix: a rejected move assignment of BasicMatrix left
 dimensions without data

---
 src/libefl/basic_matrix.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/libefl/basic_matrix.hpp b/src/libefl/basic_matrix.hpp
index f772176..e5685ad 100644
--- a/src/libefl/basic_matrix.hpp
+++ b/src/libefl/basic_matrix.hpp
@@ -75,7 +75,14 @@ public:
 
   BasicMatrix( BasicMatrix<ElementType> && rhs ) = default;
 
-  BasicMatrix<ElementType> & operator=( BasicMatrix<ElementType> && rhs ) = default;
+  BasicMatrix<ElementType> & operator=( BasicMatrix<ElementType> && rhs )
+  {
+    mData = std::move( rhs.mData ); // Throws (leaving the object unchanged) if the alignments differ.
+    mStride = rhs.mStride;
+    mNumberOfRows = rhs.mNumberOfRows;
+    mNumberOfColumns = rhs.mNumberOfColumns;
+    return *this;
+  }
 
   ~BasicMatrix()
   {
-- 
2.43.0


From e463fd1467196d313aaaf8d98633f102c968eda8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:26:31 +0000
Subject: [PATCH 039/139] fix: audio files were opened with an uninitialised
 format description

---
 src/libpml/matrix_parameter.cpp | 2 +-
 src/libpml/vector_parameter.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libpml/matrix_parameter.cpp b/src/libpml/matrix_parameter.cpp
index 0b85f74..9c4b528 100644
--- a/src/libpml/matrix_parameter.cpp
+++ b/src/libpml/matrix_parameter.cpp
@@ -274,7 +274,7 @@ MatrixParameter<ElementType>::fromAudioFile( std::string const & fileName, std::
   {
     throw std::invalid_argument( "MatrixParameter::fromAudioFile(): The specified file name does not exist." );
   }
-  SF_INFO fileInfo;
+  SF_INFO fileInfo{}; // The format field must be zero to open a file for reading.
   SNDFILE* fileHandle = nullptr;
   fileHandle = sf_open( file.string().c_str(), SFM_READ, &fileInfo );
   if( not fileHandle )
diff --git a/src/libpml/vector_parameter.cpp b/src/libpml/vector_parameter.cpp
index 82bd9c0..54990b0 100644
--- a/src/libpml/vector_parameter.cpp
+++ b/src/libpml/vector_parameter.cpp
@@ -212,7 +212,7 @@ VectorParameter<ElementType>::fromAudioFile( std::string const & fileName, std::
   {
     throw std::invalid_argument( "VectorParameter::fromAudioFile(): The specified file name does not exist." );
   }
-  SF_INFO fileInfo;
+  SF_INFO fileInfo{}; // The format field must be zero to open a file for reading.
   SNDFILE* fileHandle = nullptr;
   fileHandle = sf_open( file.string().c_str(), SFM_READ, &fileInfo );
   if( not fileHandle )
-- 
2.43.0


From 69711ca2fefbd1ad92a0b0aeb0fb306e474b2f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:40 +0000
Subject: [PATCH 040/139] fix: audio objects were created with uninitialised
 level, priority and plane wave direction

---
 src/libobjectmodel/object.cpp     | 2 ++
 src/libobjectmodel/plane_wave.cpp | 3 +++
 2 files changed, 5 insertions(+)

diff --git a/src/libobjectmodel/object.cpp b/src/libobjectmodel/object.cpp
index 5091e20..320da0f 100644
--- a/src/libobjectmodel/object.cpp
+++ b/src/libobjectmodel/object.cpp
@@ -29,6 +29,8 @@ namespace objectmodel
 Object::Object( ObjectId id )
  : mObjectId( id )
  , mGroupId( cDefaultGroupId )
+ , mLevel( static_cast<LevelType>(1.0) )
+ , mPriority( 0 )
 {
 }
 
diff --git a/src/libobjectmodel/plane_wave.cpp b/src/libobjectmodel/plane_wave.cpp
index 5e29668..f28e7fe 100644
--- a/src/libobjectmodel/plane_wave.cpp
+++ b/src/libobjectmodel/plane_wave.cpp
@@ -9,6 +9,9 @@ namespace objectmodel
 
 PlaneWave::PlaneWave( ObjectId id )
  : Object( id )
+ , mIncidenceAzimuth( static_cast<Direction>(0.0) )
+ , mIncidenceElevation( static_cast<Direction>(0.0) )
+ , mReferenceDistance( static_cast<Coordinate>(0.0) )
 {
 }
 
-- 
2.43.0


From 9fe318400bb4cc8ab8f95e2203578f3216d2018c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:41 +0000
Subject: [PATCH 041/139] fix: copy constructor of ObjectVector was declared
 but not defined

---
 src/libobjectmodel/object_vector.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/libobjectmodel/object_vector.cpp b/src/libobjectmodel/object_vector.cpp
index 9854fdc..b10abc9 100644
--- a/src/libobjectmodel/object_vector.cpp
+++ b/src/libobjectmodel/object_vector.cpp
@@ -13,6 +13,8 @@ ObjectVector::ObjectVector() = default;
 
 ObjectVector::~ObjectVector() = default;
 
+ObjectVector::ObjectVector( ObjectVector const & rhs ) = default;
+
 ObjectVector::ObjectVector( ObjectVector && rhs ) = default;
 
 ObjectVector& ObjectVector::operator=( ObjectVector const & rhs ) = default;
-- 
2.43.0


From 8acc03c6fdd0d8a4071d681cf3b283f199db2c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:01 +0000
Subject: [PATCH 042/139] fix: channel lock was reported for sources without
 it, and an infinite lock distance was lost in JSON

---
 src/libobjectmodel/point_source.cpp        | 2 +-
 src/libobjectmodel/point_source_parser.cpp | 9 ++++++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/libobjectmodel/point_source.cpp b/src/libobjectmodel/point_source.cpp
index 45a8bfd..6b5c23c 100644
--- a/src/libobjectmodel/point_source.cpp
+++ b/src/libobjectmodel/point_source.cpp
@@ -49,7 +49,7 @@ void PointSource::setZ( Coordinate newZ )
 
 bool PointSource::channelLock() const
 {
-  return mChannelLockDistance >= cNoChannelLock;
+  return mChannelLockDistance > cNoChannelLock;
 }
 
 PointSource::Coordinate PointSource::channelLockDistance() const
diff --git a/src/libobjectmodel/point_source_parser.cpp b/src/libobjectmodel/point_source_parser.cpp
index 4c1b1e2..b4c2e41 100644
--- a/src/libobjectmodel/point_source_parser.cpp
+++ b/src/libobjectmodel/point_source_parser.cpp
@@ -7,6 +7,7 @@
 #include <libefl/cartesian_spherical_conversion.hpp>
 #include <libefl/degree_radian_conversion.hpp>
 
+#include <boost/lexical_cast/try_lexical_convert.hpp>
 #include <boost/property_tree/ptree.hpp>
 
 #include <ciso646>
@@ -33,7 +34,13 @@ parse( boost::property_tree::ptree const & tree, Object & src ) const
     pointSrc.setY( yPos );
     pointSrc.setZ( zPos );
 
-    pointSrc.setChannelLock( tree.get<PointSource::Coordinate>("channelLock", static_cast<PointSource::Coordinate>( 0.0 ) ) );
+    // Use lexical_cast instead of the stream-based conversion because it supports the infinite distance denoting "always lock".
+    PointSource::Coordinate channelLockDistance;
+    if( not boost::conversion::try_lexical_convert( tree.get<std::string>( "channelLock", "0" ), channelLockDistance ) )
+    {
+      channelLockDistance = static_cast<PointSource::Coordinate>( 0.0 );
+    }
+    pointSrc.setChannelLock( channelLockDistance );
   }
   // TODO: distinguish between boost property_tree parse errors and bad dynamic casts.
   catch( std::exception const & ex )
-- 
2.43.0


From 10940ab984c2fa3b9920e201d943d571bc30f3a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:01 +0000
Subject: [PATCH 043/139] fix: JSON output of point sources with extent lacked
 the mandatory diffuseness

---
 src/libobjectmodel/point_source_extent_parser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libobjectmodel/point_source_extent_parser.cpp b/src/libobjectmodel/point_source_extent_parser.cpp
index 3eb4de1..dda19fa 100644
--- a/src/libobjectmodel/point_source_extent_parser.cpp
+++ b/src/libobjectmodel/point_source_extent_parser.cpp
@@ -41,7 +41,7 @@ write( Object const & obj, boost::property_tree::ptree & tree ) const
   // note: cannot check for object type id since obj might be a subclass of PointSource
   PointSourceExtent const& pseObj = dynamic_cast<PointSourceExtent const&>(obj);
 
-  PointSourceParser::write( obj, tree );
+  PointSourceWithDiffusenessParser::write( obj, tree );
   tree.put<PointSource::Coordinate>( "width", pseObj.width() );
   tree.put<PointSource::Coordinate>( "height", pseObj.height() );
   tree.put<PointSource::Coordinate>( "depth", pseObj.depth() );
-- 
2.43.0


From 8817f5e6682bffc2a8e29e29fa6d0157c08c2740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:01 +0000
Subject: [PATCH 044/139] fix: encoding a channel object without channels
 accessed an empty vector out of bounds

---
 src/libobjectmodel/channel_object_parser.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/libobjectmodel/channel_object_parser.cpp b/src/libobjectmodel/channel_object_parser.cpp
index 2dfe62c..89d6bfb 100644
--- a/src/libobjectmodel/channel_object_parser.cpp
+++ b/src/libobjectmodel/channel_object_parser.cpp
@@ -149,10 +149,11 @@ std::ostream & operator<<( std::ostream & str, ChannelObject::OutputChannelList
 
 std::ostream & operator<<( std::ostream & str, ChannelObject::OutputChannelContainer const & outChannels )
 {
-  if( not outChannels.empty() )
+  if( outChannels.empty() )
   {
-    str << outChannels[0];
+    return str;
   }
+  str << outChannels[0];
   for( ChannelObject::OutputChannelContainer::const_iterator runIt( outChannels.begin() + 1 );
     runIt != outChannels.end(); ++runIt )
   {
-- 
2.43.0


From 9a1960438495aad0634330376ca490698fb71216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:01 +0000
Subject: [PATCH 045/139] fix: late reverb parameters with default coefficients
 could not be constructed

---
 src/libobjectmodel/point_source_with_reverb.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libobjectmodel/point_source_with_reverb.cpp b/src/libobjectmodel/point_source_with_reverb.cpp
index 396a7f0..ba1e6d4 100644
--- a/src/libobjectmodel/point_source_with_reverb.cpp
+++ b/src/libobjectmodel/point_source_with_reverb.cpp
@@ -127,7 +127,7 @@ namespace // unnamed
   {
     std::fill( coeff.begin(), coeff.end(), defaultValue );
   }
-  if( initVal.size() == 1 )
+  else if( initVal.size() == 1 )
   {
     std::fill( coeff.begin(), coeff.end(), *(initVal.begin()) );
   }
-- 
2.43.0


From 97389b757d415069a93ae62a296c8e5a2fde45ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:01 +0000
Subject: [PATCH 046/139] fix: text form of float sequences lost precision

---
 src/librbbl/float_sequence.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/librbbl/float_sequence.cpp b/src/librbbl/float_sequence.cpp
index 7233c00..0daf922 100644
--- a/src/librbbl/float_sequence.cpp
+++ b/src/librbbl/float_sequence.cpp
@@ -166,6 +166,7 @@ template< typename ElementType>
 std::string FloatSequence<ElementType>::toString( std::string const & separator /*= std::string( ", " )*/ ) const
 {
   std::stringstream strStr;
+  strStr.precision( std::numeric_limits<ElementType>::max_digits10 );
   // std::vector<ElementType> tmp;
   std::copy( mValues.begin(), mValues.end(), std::ostream_iterator<ElementType>( strStr, separator.c_str() ) );
   std::string const str( strStr.str() );
-- 
2.43.0


From 48742ca52d4360c1d0c09304f429b9fb37b942ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:01 +0000
Subject: [PATCH 047/139] fix: scene decoder applied successive messages
 alternately to two different scenes

---
 src/librcl/scene_decoder.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/librcl/scene_decoder.cpp b/src/librcl/scene_decoder.cpp
index 5a8e730..987b572 100644
--- a/src/librcl/scene_decoder.cpp
+++ b/src/librcl/scene_decoder.cpp
@@ -29,14 +29,15 @@ SceneDecoder::~SceneDecoder()
 
 void SceneDecoder::process()
 {
-  objectmodel::ObjectVector & objects = mObjectVectorOutput.data();
   while( not mDatagramInput.empty() )
   {
     char const * nextMsg = mDatagramInput.front().str();
     try
     {
-      objectmodel::ObjectVectorParser::updateObjectVector( nextMsg, objects );
-      mObjectVectorOutput.swapBuffers();
+      // The output buffers are exchanged after each message, therefore the current one must be obtained anew.
+      objectmodel::ObjectVectorParser::updateObjectVector( nextMsg, mObjectVectorOutput.data() );
+      // Retain the scene in the output buffer, because messages contain incremental updates.
+      mObjectVectorOutput.swapBuffers( true /*copyValue*/ );
     }
     catch( std::exception const & ex )
     {
-- 
2.43.0


From 7f0958e766ee891a7c48281136b5e6cfbe8c8e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:33 +0000
Subject: [PATCH 048/139] fix: assigning a loudspeaker array lost its output
 equalisers

---
 src/libpanning/LoudspeakerArray.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libpanning/LoudspeakerArray.cpp b/src/libpanning/LoudspeakerArray.cpp
index 23b5f40..fa91f33 100644
--- a/src/libpanning/LoudspeakerArray.cpp
+++ b/src/libpanning/LoudspeakerArray.cpp
@@ -74,6 +74,7 @@ namespace panning
     m_subwooferGains.copy( rhs.m_subwooferGains );
     m_gainAdjustment.assign( rhs.m_gainAdjustment );
     m_delayAdjustment.assign( rhs.m_delayAdjustment );
+    mOutputEqs.reset( rhs.mOutputEqs ? new rbbl::BiquadCoefficientMatrix<SampleType>( *rhs.mOutputEqs ) : nullptr );
     return *this;
   }
   
-- 
2.43.0


From 7f0e4081e9eba04fdaa253f2b2a2fd9134a52640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:33 +0000
Subject: [PATCH 049/139] fix: loudspeaker array could not be loaded a second
 time

---
 src/libpanning/LoudspeakerArray.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libpanning/LoudspeakerArray.cpp b/src/libpanning/LoudspeakerArray.cpp
index fa91f33..afb2020 100644
--- a/src/libpanning/LoudspeakerArray.cpp
+++ b/src/libpanning/LoudspeakerArray.cpp
@@ -276,6 +276,7 @@ namespace panning
     
     m_position.resize( numTotalSpeakers );
     m_channel.resize( numRegularSpeakers );
+    m_id.clear();
     
     m_gainAdjustment.resize( numRegularSpeakers + numSubwoofers );
     m_delayAdjustment.resize( numRegularSpeakers + numSubwoofers );
-- 
2.43.0


From 5332f00ba8d1f75dd56dda3ef0d926d136034541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:33 +0000
Subject: [PATCH 050/139] fix: loudspeaker ids with surrounding blanks were
 registered twice

---
 src/libpanning/LoudspeakerArray.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libpanning/LoudspeakerArray.cpp b/src/libpanning/LoudspeakerArray.cpp
index afb2020..9d5a28c 100644
--- a/src/libpanning/LoudspeakerArray.cpp
+++ b/src/libpanning/LoudspeakerArray.cpp
@@ -360,6 +360,7 @@ namespace panning
     {
       ptree const childTree = treeIt->second;
       std::string id = childTree.get<std::string>( "<xmlattr>.id" );
+      boost::trim_if( id, boost::is_any_of( "\t " ) );
       //      if(std::find(m_channel.begin(),m_channel.end(),m_channel[w]) == m_channel.end()) std::cout<<"NOTFIND"<<std::endl;
       ChannelIndex const chIdx = childTree.get<ChannelIndex>( "<xmlattr>.channel" );
       size_t offset = std::distance(m_channel.begin(),std::find(m_channel.begin(),m_channel.end(),chIdx));
-- 
2.43.0


From 21cefe78db4a10beb83d52f8a28318ec5a16dd24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:33 +0000
Subject: [PATCH 051/139] fix: routings and subwoofer assignments to virtual
 loudspeakers wrote outside the gain matrices

---
 src/libpanning/LoudspeakerArray.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/libpanning/LoudspeakerArray.cpp b/src/libpanning/LoudspeakerArray.cpp
index 9d5a28c..79c900b 100644
--- a/src/libpanning/LoudspeakerArray.cpp
+++ b/src/libpanning/LoudspeakerArray.cpp
@@ -409,6 +409,10 @@ namespace panning
         {
           throw std::invalid_argument( "LoudspeakerArray::loadXml(): Cannot find loudspeaker id in virtual speaker routing." );
         }
+        if( m_id[lspId] >= numRegularSpeakers )
+        {
+          throw std::invalid_argument( "LoudspeakerArray::loadXml(): Virtual speakers must be routed to real loudspeakers." );
+        }
         //std::cout <<"RER: "<< i - numRegularSpeakers << " => " << m_id[lspId] << '\n';
         m_reRoutingCoeff( i - numRegularSpeakers, m_id[lspId] ) = efl::dB2linear( gainDB );
       }
@@ -488,7 +492,7 @@ namespace panning
       boost::find_format_all( speakerIndicesStr, boost::token_finder( ::isspace ), boost::const_formatter( "" ) );
       boost::split( speakerIndices, speakerIndicesStr, boost::is_any_of( "," ), boost::token_compress_on );
       if( std::find_if( speakerIndices.begin(), speakerIndices.end(),
-                       [&]( std::string val ) { return (m_id.find( val ) == m_id.end() or (val.empty())); } ) != speakerIndices.end() )
+                       [&]( std::string val ) { return (m_id.find( val ) == m_id.end() or (val.empty()) or (m_id[val] >= numRegularSpeakers)); } ) != speakerIndices.end() )
       {
         throw std::invalid_argument( "At least one of the specified loudspeaker index in subwoofer's list does not exist." );
       }
-- 
2.43.0


From 41864ce409b2e600ad393e69a4cad679b4d3905c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:34 +0000
Subject: [PATCH 052/139] fix: negative loudspeaker and zero subwoofer channels
 were accepted

---
 src/libpanning/LoudspeakerArray.cpp | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/libpanning/LoudspeakerArray.cpp b/src/libpanning/LoudspeakerArray.cpp
index 79c900b..b048779 100644
--- a/src/libpanning/LoudspeakerArray.cpp
+++ b/src/libpanning/LoudspeakerArray.cpp
@@ -173,6 +173,20 @@ namespace panning
       delay = delayOpt ? *delayOpt : 0.0f;
     }
     
+    /**
+     * Local function to parse the mandatory (one-offset) output channel index of a loudspeaker or subwoofer.
+     * The attribute is read as a signed number, because unsigned parsing would silently wrap negative values around.
+     */
+    LoudspeakerArray::ChannelIndex parseChannelIndex( boost::property_tree::ptree const & node )
+    {
+      long long const chIdx = node.get<long long>( "<xmlattr>.channel" );
+      if( chIdx < 1 )
+      {
+        throw std::invalid_argument( "LoudspeakerArray::loadXml(): The channel id must be greater or equal than one." );
+      }
+      return static_cast<LoudspeakerArray::ChannelIndex>(chIdx);
+    }
+
     using ChannelEqLookupTable = std::map<std::string, rbbl::BiquadCoefficientList<Afloat> >;
     
     /**
@@ -339,11 +353,7 @@ namespace panning
       {
         throw std::invalid_argument( "LoudspeakerArray::loadXml(): Each channel id must be used exactly once." );
       }
-      ChannelIndex const chIdx = childTree.get<ChannelIndex>( "<xmlattr>.channel" );
-      if( chIdx < 1 )
-      {
-        throw std::invalid_argument( "LoudspeakerArray::loadXml(): The channel id must be greater or equal than one." );
-      }
+      ChannelIndex const chIdx = parseChannelIndex( childTree );
       m_id[id] = 0; //just to have the id as a key in the map, to search for duplicates
       m_channel[i] = chIdx;
       
@@ -362,7 +372,7 @@ namespace panning
       std::string id = childTree.get<std::string>( "<xmlattr>.id" );
       boost::trim_if( id, boost::is_any_of( "\t " ) );
       //      if(std::find(m_channel.begin(),m_channel.end(),m_channel[w]) == m_channel.end()) std::cout<<"NOTFIND"<<std::endl;
-      ChannelIndex const chIdx = childTree.get<ChannelIndex>( "<xmlattr>.channel" );
+      ChannelIndex const chIdx = parseChannelIndex( childTree );
       size_t offset = std::distance(m_channel.begin(),std::find(m_channel.begin(),m_channel.end(),chIdx));
       
       m_id[id] = offset;
@@ -484,7 +494,7 @@ namespace panning
     for( ptree::const_assoc_iterator subIt( subwooferNodes.first ); subIt != subwooferNodes.second; ++subIt, ++subIdx )
     {
       ptree const subNode = subIt->second;
-      ChannelIndex const subChannel = subNode.get<std::size_t>( "<xmlattr>.channel" );
+      ChannelIndex const subChannel = parseChannelIndex( subNode );
       m_subwooferChannels[subIdx] = subChannel;
       
       std::string speakerIndicesStr = subNode.get<std::string>( "<xmlattr>.assignedLoudspeakers" );
-- 
2.43.0


From 39f788675a5ff99f84a98b69bc294f0416710a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:34 +0000
Subject: [PATCH 053/139] fix: duplicate output filter names were accepted

---
 src/libpanning/LoudspeakerArray.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/libpanning/LoudspeakerArray.cpp b/src/libpanning/LoudspeakerArray.cpp
index b048779..ac347a8 100644
--- a/src/libpanning/LoudspeakerArray.cpp
+++ b/src/libpanning/LoudspeakerArray.cpp
@@ -206,6 +206,10 @@ namespace panning
         
         bool insertRes;
         std::tie( std::ignore, insertRes ) = table.insert( std::make_pair( specName, biqList ) );
+        if( not insertRes )
+        {
+          throw std::invalid_argument( "LoudspeakerArray::loadXml(): The filterSpec names must be unique." );
+        }
       }
     }
     
-- 
2.43.0


From 98965a0b786a5a875f79aabb291cbdf54289acf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:34 +0000
Subject: [PATCH 054/139] fix: references to undefined output filters were
 ignored without an outputEqConfiguration

---
 src/libpanning/LoudspeakerArray.cpp | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/libpanning/LoudspeakerArray.cpp b/src/libpanning/LoudspeakerArray.cpp
index ac347a8..78f79ca 100644
--- a/src/libpanning/LoudspeakerArray.cpp
+++ b/src/libpanning/LoudspeakerArray.cpp
@@ -233,6 +233,17 @@ namespace panning
         eqMatrix.setFilter( channelIndex, rbbl::BiquadCoefficientList<Afloat>() );
       }
     }
+
+    /**
+     * Reject references to equalisation filters if the configuration does not define any.
+     */
+    void checkNoEqFilter( boost::property_tree::ptree const & tree )
+    {
+      if( tree.get_optional<std::string>( "<xmlattr>.eq" ) )
+      {
+        throw std::invalid_argument( "LoudspeakerArray::loadXml(): \"eq\" attribute used without an \"outputEqConfiguration\" element." );
+      }
+    }
     
   } // unnamed namespace
   
@@ -390,6 +401,10 @@ namespace panning
       {
         parseEqFilter( childTree, eqLookupTable, m_id[id], *mOutputEqs );
       }
+      else
+      {
+        checkNoEqFilter( childTree );
+      }
     }
     
     
@@ -540,6 +555,10 @@ namespace panning
       {
         parseEqFilter( subNode, eqLookupTable, numRegularSpeakers + subIdx, *mOutputEqs );
       }
+      else
+      {
+        checkNoEqFilter( subNode );
+      }
     }
     // Check the subwoofer and the subwoofer indices whether all indices are unique.
     std::vector<ChannelIndex> spkIndicesSorted( m_channel );
-- 
2.43.0


From f3d187c816c408456ba083d9d18eccd4a0d915e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:34 +0000
Subject: [PATCH 055/139] fix: malformed optional attributes of loudspeaker
 configurations were silently ignored

---
 src/libpanning/LoudspeakerArray.cpp | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/libpanning/LoudspeakerArray.cpp b/src/libpanning/LoudspeakerArray.cpp
index 78f79ca..cff8061 100644
--- a/src/libpanning/LoudspeakerArray.cpp
+++ b/src/libpanning/LoudspeakerArray.cpp
@@ -82,6 +82,16 @@ namespace panning
   
   namespace // unnamed
   {
+    /**
+     * Return the value of an optional attribute, or an empty optional if the attribute is not present.
+     * @throw boost::property_tree::ptree_bad_data If the attribute is present, but is not a valid value.
+     */
+    template< typename ValueType >
+    boost::optional<ValueType> getOptionalAttribute( boost::property_tree::ptree const & node, char const * name )
+    {
+      auto const attribute = node.get_child_optional( std::string( "<xmlattr>." ) + name );
+      return attribute ? boost::optional<ValueType>( attribute->get_value<ValueType>() ) : boost::optional<ValueType>();
+    }
     
     /**
      * Local function to parse the coordinate of either a normal or a virtual loudspeaker.
@@ -112,7 +122,7 @@ namespace panning
         pos.y = coordNode.get<SampleType>( "<xmlattr>.y" );
         if( is2D )
         {
-          auto const zOpt = coordNode.get_optional<SampleType>("<xmlattr>.z" );
+          auto const zOpt = getOptionalAttribute<SampleType>( coordNode, "z" );
           pos.z = zOpt ? *zOpt : static_cast<SampleType>(0.0);
         }
         else
@@ -129,7 +139,7 @@ namespace panning
         SampleType el{ static_cast<SampleType>(0.0) };
         if( is2D )
         {
-          auto const elOpt = coordNode.get_optional<SampleType>( "<xmlattr>.el" );
+          auto const elOpt = getOptionalAttribute<SampleType>( coordNode, "el" );
           el = elOpt ? *elOpt : static_cast<SampleType>(0.0);
         }
         else
@@ -151,8 +161,8 @@ namespace panning
      */
     void parseGainDelayAdjustments( boost::property_tree::ptree const & node, SampleType & gain, SampleType & delay )
     {
-      boost::optional<SampleType> const gainLinear = node.get_optional<SampleType>( "<xmlattr>.gain" );
-      boost::optional<SampleType> const gainDB = node.get_optional<Afloat>( "<xmlattr>.gainDB" );
+      boost::optional<SampleType> const gainLinear = getOptionalAttribute<SampleType>( node, "gain" );
+      boost::optional<SampleType> const gainDB = getOptionalAttribute<SampleType>( node, "gainDB" );
       if( gainLinear and gainDB )
       {
         throw std::invalid_argument( "ArrayConfiguration::loadXml(): The \"gain\" or \"gainDB\" attributes are mutually exclusive." );
@@ -169,7 +179,7 @@ namespace panning
       {
         gain = 1.0f;
       }
-      boost::optional<Afloat> const delayOpt = node.get_optional<Afloat>( "<xmlattr>.delay" );
+      boost::optional<Afloat> const delayOpt = getOptionalAttribute<SampleType>( node, "delay" );
       delay = delayOpt ? *delayOpt : 0.0f;
     }
     
@@ -291,7 +301,7 @@ namespace panning
     {
       m_is2D = false;
     }
-    boost::optional<bool> const infinity = treeRoot.get_optional<bool>( "<xmlattr>.infinite" );
+    boost::optional<bool> const infinity = getOptionalAttribute<bool>( treeRoot, "infinite" );
     m_isInfinite = infinity ? *infinity : false;
     
     auto const speakerNodes = treeRoot.equal_range( "loudspeaker" );
-- 
2.43.0


From 3ad5f57bef264717244d8107b4eb28209e614c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:55 +0000
Subject: [PATCH 056/139] fix: self-assignment of a loudspeaker array cleared
 its gain matrices

---
 src/libpanning/LoudspeakerArray.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/libpanning/LoudspeakerArray.cpp b/src/libpanning/LoudspeakerArray.cpp
index cff8061..bfa9580 100644
--- a/src/libpanning/LoudspeakerArray.cpp
+++ b/src/libpanning/LoudspeakerArray.cpp
@@ -61,6 +61,10 @@ namespace panning
   
   LoudspeakerArray const &  LoudspeakerArray::operator=( LoudspeakerArray const & rhs )
   {
+    if( this == &rhs )
+    {
+      return *this; // Resizing the matrices below would erase the content.
+    }
     m_is2D = rhs.m_is2D;
     m_isInfinite = rhs.m_isInfinite;
     m_position = rhs.m_position;
-- 
2.43.0


From f4ef39d7c561f3077dbc3daff517340b462d1d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:07 +0000
Subject: [PATCH 057/139] fix: 2D panning failed for listeners outside of the
 loudspeaker plane

---
 src/libpanning/VBAP.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/libpanning/VBAP.cpp b/src/libpanning/VBAP.cpp
index a02daca..9bc29c3 100644
--- a/src/libpanning/VBAP.cpp
+++ b/src/libpanning/VBAP.cpp
@@ -12,6 +12,7 @@
 
 #include "VBAP.h"
 
+#include <ciso646>
 #include <cmath>
 #include <numeric>
 #include <limits>
@@ -176,9 +177,12 @@ namespace panning
       l2X = l2X - mListenerPos[0];
       l2Y = l2Y - mListenerPos[1];
       l2Z = l2Z - mListenerPos[2];
-      l3X = l3X - mListenerPos[0];
-      l3Y = l3Y - mListenerPos[1];
-      l3Z = l3Z - mListenerPos[2];
+      if( not is2D ) // The auxiliary vector used in the 2D case is a direction, not a position.
+      {
+        l3X = l3X - mListenerPos[0];
+        l3Y = l3Y - mListenerPos[1];
+        l3Z = l3Z - mListenerPos[2];
+      }
 
       normalise(l1X,l1Y,l1Z);
       normalise(l2X,l2Y,l2Z);
-- 
2.43.0


From 668d8b15679f4b859d2a4ec617908db2b4da6e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:07 +0000
Subject: [PATCH 058/139] fix: AllRAD read positions of virtual loudspeakers
 past the end of the position matrix

---
 src/libpanning/AllRAD.cpp                 | 2 +-
 src/librcl/hoa_allrad_gain_calculator.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libpanning/AllRAD.cpp b/src/libpanning/AllRAD.cpp
index 0835734..a248f19 100644
--- a/src/libpanning/AllRAD.cpp
+++ b/src/libpanning/AllRAD.cpp
@@ -26,7 +26,7 @@ AllRAD::AllRAD(LoudspeakerArray const & regularArray,
  , mNumberOfHarmonics( (maxHoaOrder + 1) * (maxHoaOrder + 1) )
  , mRegularDecodeCoefficients( decodeCoeffs.numberOfRows( ), decodeCoeffs.numberOfColumns( ), decodeCoeffs.alignmentElements( ) )
  , mRealDecodeCoefficients( mNumberOfHarmonics, realArray.getNumRegularSpeakers(), decodeCoeffs.alignmentElements() )
- , mRegularArraySize( regularArray.getNumSpeakers( ) )
+ , mRegularArraySize( regularArray.getNumRegularSpeakers() )
  , mRegularToRealDecodeCoefficients( mRegularArraySize, realArray.getNumRegularSpeakers(), decodeCoeffs.alignmentElements() )
 {
   if( decodeCoeffs.numberOfRows() != mNumberOfHarmonics )
diff --git a/src/librcl/hoa_allrad_gain_calculator.cpp b/src/librcl/hoa_allrad_gain_calculator.cpp
index 056d86b..472bcde 100644
--- a/src/librcl/hoa_allrad_gain_calculator.cpp
+++ b/src/librcl/hoa_allrad_gain_calculator.cpp
@@ -38,7 +38,7 @@ HoaAllRadGainCalculator( SignalFlowContext const & context,
   , mRegularDecodeMatrix( decodeMatrix.numberOfRows(), regularArrayConfig.getNumRegularSpeakers(), cVectorAlignmentSamples )
   , mRealDecodeMatrix( regularArrayConfig.getNumSpeakers(), realArrayConfig.getNumRegularSpeakers(), cVectorAlignmentSamples )
 {
-  std::size_t const numRegularSpeakers = regularArrayConfig.getNumSpeakers();
+  std::size_t const numRegularSpeakers = regularArrayConfig.getNumRegularSpeakers();
   std::size_t const numHarmonicSignals = decodeMatrix.numberOfRows();
 
   // Deduce the Ambisonics order from the number of harmonic signals
-- 
2.43.0


From 798fea66f219994a9911f0075a5d5bbc91602915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:18 +0000
Subject: [PATCH 059/139] fix: 2D panning selected a wrong loudspeaker pair for
 directions at a loudspeaker seen from above or below

---
 src/libpanning/VBAP.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libpanning/VBAP.cpp b/src/libpanning/VBAP.cpp
index 9bc29c3..7ac972f 100644
--- a/src/libpanning/VBAP.cpp
+++ b/src/libpanning/VBAP.cpp
@@ -256,7 +256,7 @@ namespace panning
       SampleType const * inv = mInvMatrix.row( j );
       g1 = x*inv[0] + y*inv[1] + z*inv[2];
       g2 = x*inv[3] + y*inv[4] + z*inv[5];
-      g3 = x*inv[6] + y*inv[7] + z*inv[8];
+      g3 = is2D ? 0.0f : x*inv[6] + y*inv[7] + z*inv[8]; // The auxiliary third vector must not influence the search in the 2D case.
       
       if( g1 >= 0 && g2 >= 0 && (g3 >= 0 || is2D) )  // inside triplet, or edge in 2D case.
       {
-- 
2.43.0


From e4ea8b32b27f18a92cf52d00060b58f02946efd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:39 +0000
Subject: [PATCH 060/139] fix: panning gains were not recomputed when only the
 listener position changed

---
 src/librcl/panning_calculator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/librcl/panning_calculator.cpp b/src/librcl/panning_calculator.cpp
index ad855a4..6e3d69b 100644
--- a/src/librcl/panning_calculator.cpp
+++ b/src/librcl/panning_calculator.cpp
@@ -182,7 +182,7 @@ void PanningCalculator::process()
     mListenerPositionInput->resetChanged( );
   }
 
-  if( mObjectVectorInput->changed() )
+  if( listenerPosChanged or mObjectVectorInput->changed() )
   {
     objectmodel::ObjectVector const & objects = mObjectVectorInput->data( );
 #if 1
-- 
2.43.0


From 6a6e821841126ee4ea019cb19dcfb6c9264a0efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:40 +0000
Subject: [PATCH 061/139] fix: PanningCalculator wrote outside the gain
 matrices for objects with out-of-range signal channels

---
 src/librcl/panning_calculator.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/librcl/panning_calculator.cpp b/src/librcl/panning_calculator.cpp
index 6e3d69b..08da20f 100644
--- a/src/librcl/panning_calculator.cpp
+++ b/src/librcl/panning_calculator.cpp
@@ -219,9 +219,10 @@ void PanningCalculator::process()
         for( std::size_t chIdx(0); chIdx < numChannels; ++chIdx )
         {
           std::size_t const objChannelIdx = co->channelIndex( chIdx );
-          if( chIdx >= mNumberOfObjects )
+          if( objChannelIdx >= mNumberOfObjects )
           {
-            status( StatusMessage::Warning, "Object channel index for channel object (", chIdx,  ") exceeds admissible range." );
+            status( StatusMessage::Warning, "Object channel index for channel object (", objChannelIdx,  ") exceeds admissible range." );
+            continue;
           }
           mTmpGains.zeroFill();
           objectmodel::ChannelObject::OutputChannelList const & outputChannels = co->outputChannel( chIdx );
@@ -260,6 +261,11 @@ void PanningCalculator::process()
         continue;
       }
       objectmodel::Object::ChannelIndex const objChannelIdx = obj.channelIndex(0);
+      if( objChannelIdx >= mNumberOfObjects )
+      {
+        status( StatusMessage::Warning, "Channel index (", objChannelIdx, ") of object id #", obj.id(), " exceeds admissible range." );
+        continue;
+      }
       objectmodel::DiffuseSource const * ds = dynamic_cast<objectmodel::DiffuseSource const *>(&obj);
       if( ds and diffuseGains )
       {
-- 
2.43.0


From 2bece9a0d7f0ae3febe95aaff47ee76f886cb83e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:40 +0000
Subject: [PATCH 062/139] fix: PanningCalculator dereferenced an invalid
 iterator for unknown output labels of channel objects

---
 src/librcl/panning_calculator.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/librcl/panning_calculator.cpp b/src/librcl/panning_calculator.cpp
index 08da20f..92c291d 100644
--- a/src/librcl/panning_calculator.cpp
+++ b/src/librcl/panning_calculator.cpp
@@ -231,7 +231,8 @@ void PanningCalculator::process()
             ChannelLabelLookup::const_iterator findIdx = mLabelLookup.find( outLabel );
             if( findIdx == mLabelLookup.end() )
             {
-              status( StatusMessage::Warning, "Object channel index for channel object (", chIdx, ") exceeds admissible range." );
+              status( StatusMessage::Warning, "Unknown output label \"", outLabel, "\" of channel object with id #", obj.id(), "." );
+              continue;
             }
             assert( findIdx->second < mNumberOfRegularLoudspeakers ); // The lookup contains only regular loudspeakers
             mTmpGains[findIdx->second] = 1.0f; // Normalisation and direct/diffuse scaling is performed later on
-- 
2.43.0


From 235f8d6b74140224d88ebf957b76d25646b82d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:40 +0000
Subject: [PATCH 063/139] fix: high-frequency panning gains became NaN for
 slightly negative panning coefficients

---
 src/librcl/panning_calculator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/librcl/panning_calculator.cpp b/src/librcl/panning_calculator.cpp
index 92c291d..4b36c4e 100644
--- a/src/librcl/panning_calculator.cpp
+++ b/src/librcl/panning_calculator.cpp
@@ -311,7 +311,7 @@ void PanningCalculator::process()
         }
         if( hfGains )
         {
-          std::transform( mTmpGains.data(), mTmpGains.data()+mNumberOfRegularLoudspeakers, mTmpHfGains.data(), [](SampleType val ){ return std::sqrt(val); } );
+          std::transform( mTmpGains.data(), mTmpGains.data()+mNumberOfRegularLoudspeakers, mTmpHfGains.data(), [](SampleType val ){ return std::sqrt( std::max( val, 0.0f ) ); } );
           normalise( mTmpHfGains.data(), hfGains->data() + objChannelIdx, mNumberOfRegularLoudspeakers,
             mHfNormalisation, hfGains->stride(), directRatio );
         }
-- 
2.43.0


From 54a4b17bba55c7d2282a3649bf623028df08e847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:40 +0000
Subject: [PATCH 064/139] fix: PanningCalculator interpreted plane wave
 incidence angles as radian values

---
 src/librcl/panning_calculator.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/librcl/panning_calculator.cpp b/src/librcl/panning_calculator.cpp
index 4b36c4e..bd41505 100644
--- a/src/librcl/panning_calculator.cpp
+++ b/src/librcl/panning_calculator.cpp
@@ -280,7 +280,8 @@ void PanningCalculator::process()
       if( pw )
       {
         SampleType x,y,z;
-        std::tie( x, y, z ) = efl::spherical2cartesian( pw->incidenceAzimuth(), pw->incidenceElevation(), pw->referenceDistance() );
+        std::tie( x, y, z ) = efl::spherical2cartesian( efl::degree2radian( pw->incidenceAzimuth() ),
+                                                        efl::degree2radian( pw->incidenceElevation() ), 1.0f );
         mVbapCalculator->calculateGainsUnNormalised( x, y, z, &mTmpGains[0], true /*planeWave*/ );
         diffuseRatio = 0.0f;
         objectHandled = true;
-- 
2.43.0


From c13ba66a6460b8d07621b38c16574bbb43a74304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:40 +0000
Subject: [PATCH 065/139] fix: an object with an out-of-range signal channel
 terminated the object gain/EQ calculation

---
 src/librcl/object_gain_eq_calculator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/librcl/object_gain_eq_calculator.cpp b/src/librcl/object_gain_eq_calculator.cpp
index 54c90b7..1c538d8 100644
--- a/src/librcl/object_gain_eq_calculator.cpp
+++ b/src/librcl/object_gain_eq_calculator.cpp
@@ -77,7 +77,7 @@ void ObjectGainEqCalculator::process( objectmodel::ObjectVector const & objects,
         std::size_t const signalChannelIdx = obj.channelIndex( chIdx );
         if( signalChannelIdx >= cNumberOfObjectChannels )
         {
-          status( StatusMessage::Error, "Signal index ", signalChannelIdx, " exceeds number of object signal channels (", cNumberOfObjectChannels, ")" );
+          status( StatusMessage::Warning, "Signal index ", signalChannelIdx, " exceeds number of object signal channels (", cNumberOfObjectChannels, ")" );
           continue;
         }
         objectSignalGains[ signalChannelIdx ] = objLevel;
-- 
2.43.0


From 43b0f2eb94b58939580a74d0a3d6cd5ee0e50631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:40 +0000
Subject: [PATCH 066/139] fix: signal channels kept the equalisers of objects
 that have left the scene

---
 src/librcl/object_gain_eq_calculator.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/librcl/object_gain_eq_calculator.cpp b/src/librcl/object_gain_eq_calculator.cpp
index 1c538d8..1023d27 100644
--- a/src/librcl/object_gain_eq_calculator.cpp
+++ b/src/librcl/object_gain_eq_calculator.cpp
@@ -67,7 +67,11 @@ void ObjectGainEqCalculator::process( objectmodel::ObjectVector const & objects,
     throw std::invalid_argument( "ObjectGainEqCalculator::process(): The parameter \"objectChannelEqs\" must have a matrix dimension of numberOfObjectChannels x numberOfBiquadSections" );
   }
   objectSignalGains.zeroFill();
-  // TODO: Make sure that the EQs of unused channels are set to a neutral value.
+  // Make sure that the EQs of unused channels are set to a neutral value.
+  for( std::size_t chIdx(0); chIdx < cNumberOfObjectChannels; ++chIdx )
+  {
+    std::fill( objectChannelEqs[chIdx].begin(), objectChannelEqs[chIdx].end(), defaultEq );
+  }
   for( Object const & obj : objects )
   {
     LevelType const objLevel = obj.level();
-- 
2.43.0


From 7263e4c71fadf455553a522c1eef96ff55ebe120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:40 +0000
Subject: [PATCH 067/139] fix: off-by-one error in the signal channel range
 check of ChannelObjectRoutingCalculator

---
 src/librcl/channel_object_routing_calculator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/librcl/channel_object_routing_calculator.cpp b/src/librcl/channel_object_routing_calculator.cpp
index 64f014e..422199b 100644
--- a/src/librcl/channel_object_routing_calculator.cpp
+++ b/src/librcl/channel_object_routing_calculator.cpp
@@ -82,7 +82,7 @@ void ChannelObjectRoutingCalculator::process( pml::ObjectVector const & objects,
     assert(numberOfChannelSignals == chObj.outputChannels().size()); // class invariant
     for( std::size_t chIdx(0); chIdx < numberOfChannelSignals; ++chIdx )
     {
-      if (chObj.channelIndex(chIdx) > cNumberOfObjectChannels)
+      if (chObj.channelIndex(chIdx) >= cNumberOfObjectChannels)
       {
         // TODO: Use error reporting API (when defined)
         std::cerr << "ChannelObjectRoutingCalculator: Object channel index exceeds channel range." << std::endl;
-- 
2.43.0


From eed0e8cd18045b7044e398ae40961dcf0ff1b36f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:40 +0000
Subject: [PATCH 068/139] fix: HoaAllRadGainCalculator read outside the decoder
 matrix for objects of a higher order

---
 src/librcl/hoa_allrad_gain_calculator.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/librcl/hoa_allrad_gain_calculator.cpp b/src/librcl/hoa_allrad_gain_calculator.cpp
index 472bcde..606d247 100644
--- a/src/librcl/hoa_allrad_gain_calculator.cpp
+++ b/src/librcl/hoa_allrad_gain_calculator.cpp
@@ -117,6 +117,10 @@ void HoaAllRadGainCalculator::process()
       {
         throw std::runtime_error( "The number of harmonic signals is inconsistent with the HOA order." );
       }
+      if( numHoaSignals > decodeGains.numberOfRows() )
+      {
+        throw std::runtime_error( "The HOA order of the object exceeds the order of the decoder matrix." );
+      }
       for( std::size_t sigIdx( 0 ); sigIdx < numHoaSignals; ++sigIdx )
       {
         std::size_t const chIdx = hoaSrc.channelIndex( sigIdx );
-- 
2.43.0


From ae808e3fd491915404575c21ff00e882e9c5b52a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:40 +0000
Subject: [PATCH 069/139] fix: an invalid HOA object terminated the decoding of
 all other HOA objects

---
 src/librcl/hoa_allrad_gain_calculator.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/librcl/hoa_allrad_gain_calculator.cpp b/src/librcl/hoa_allrad_gain_calculator.cpp
index 606d247..ce3674e 100644
--- a/src/librcl/hoa_allrad_gain_calculator.cpp
+++ b/src/librcl/hoa_allrad_gain_calculator.cpp
@@ -136,8 +136,8 @@ void HoaAllRadGainCalculator::process()
     }
     catch( std::exception const & ex )
     {
-      status( StatusMessage::Error, "Error decoding HOA source: ",  ex.what() );
-      return;
+      status( StatusMessage::Warning, "Error decoding HOA source: ",  ex.what() );
+      continue;
     }
   } // for( objectmodel::ObjectVector::value_type const & objEntry : objects )
   mObjectInput.resetChanged(); // Always reset.
-- 
2.43.0


From 4a1ff264e4a2311813b9909a86128273471a7d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:40 +0000
Subject: [PATCH 070/139] fix: CAP gains were not recomputed when only the
 listener moved

---
 src/librcl/cap_gain_calculator.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/librcl/cap_gain_calculator.cpp b/src/librcl/cap_gain_calculator.cpp
index fa7ece5..0d69883 100644
--- a/src/librcl/cap_gain_calculator.cpp
+++ b/src/librcl/cap_gain_calculator.cpp
@@ -81,7 +81,8 @@ void CAPGainCalculator::setNearTripletBoundaryCosTheta(SampleType ct)
 
 void CAPGainCalculator::process()
 {
-  if( mListenerPositionInput.changed() )
+  bool const listenerPosChanged = mListenerPositionInput.changed();
+  if( listenerPosChanged )
   {
     pml::ListenerPosition const & listener = mListenerPositionInput.data();
     // Set the listener position and orientation
@@ -98,7 +99,7 @@ void CAPGainCalculator::process()
   }
 
   // TODO: decide whether to always process
-  if (mObjectVectorInput.changed() or mListenerPositionInput.changed())
+  if (mObjectVectorInput.changed() or listenerPosChanged)
   {
     efl::BasicMatrix<CoefficientType> & gains = mGainOutput.data();
     assert((gains.numberOfRows() == mNumberOfLoudspeakers) and (gains.numberOfColumns() == mNumberOfObjects));
-- 
2.43.0


From 8ee16e915d26cea4bbc91b260cb70ad646380d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:40 +0000
Subject: [PATCH 071/139] fix: CAP ignored the diffuseness of point sources

---
 src/librcl/cap_gain_calculator.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/librcl/cap_gain_calculator.cpp b/src/librcl/cap_gain_calculator.cpp
index 0d69883..488285b 100644
--- a/src/librcl/cap_gain_calculator.cpp
+++ b/src/librcl/cap_gain_calculator.cpp
@@ -153,8 +153,9 @@ void CAPGainCalculator::process( objectmodel::ObjectVector const & objects,
     case objectmodel::ObjectTypeId::PointSourceWithDiffuseness:
     {
       objectmodel::PointSourceWithDiffuseness const & psdSrc = dynamic_cast<objectmodel::PointSourceWithDiffuseness const &>(obj);
+      mSourcePositions[channelId].set( psdSrc.x(), psdSrc.y(), psdSrc.z() );
       mLevels[channelId] = (static_cast<objectmodel::LevelType>(1.0)-psdSrc.diffuseness()); // Adjust the amount of direct sound according to the diffuseness
-      // Fall through intentionally
+      break;
     }
     case objectmodel::ObjectTypeId::PointSource:
     {
-- 
2.43.0


From 57a9791fe483614964906b48125c71f219c88dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:40 +0000
Subject: [PATCH 072/139] fix: high-frequency gains of CAP were not computed
 according to the VBIP law

---
 src/librcl/cap_gain_calculator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/librcl/cap_gain_calculator.cpp b/src/librcl/cap_gain_calculator.cpp
index 488285b..c87bea9 100644
--- a/src/librcl/cap_gain_calculator.cpp
+++ b/src/librcl/cap_gain_calculator.cpp
@@ -214,7 +214,7 @@ void CAPGainCalculator::process( objectmodel::ObjectVector const & objects,
       panning::XYZ const & pos = mSourcePositions[chIdx];
       objectmodel::LevelType const level = mLevels[chIdx];
       mVbipCalculator->calculateGainsUnNormalised(pos.x, pos.y, pos.z, &mTempHfGains[0], pos.isInfinite );
-      std::for_each(mTempHfGains.begin(), mTempHfGains.end(), [](Afloat & val) { return std::sqrt(std::max(val, 0.0f)); });
+      std::for_each(mTempHfGains.begin(), mTempHfGains.end(), [](Afloat & val) { val = std::sqrt(std::max(val, 0.0f)); });
       Afloat const sigNorm = std::sqrt(std::accumulate(mTempHfGains.begin(), mTempHfGains.end(), 0.0f,
         [](SampleType acc, SampleType val) { return acc + val * val; }));
       Afloat const normedLevel = level / std::max(sigNorm, std::numeric_limits<SampleType>::epsilon());
-- 
2.43.0


From a634d4c94920b7075a09a1a7beeaf417e8d89d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:10 +0000
Subject: [PATCH 073/139] fix: an object with too many EQ sections terminated
 the object gain/EQ calculation

---
 src/librcl/object_gain_eq_calculator.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/librcl/object_gain_eq_calculator.cpp b/src/librcl/object_gain_eq_calculator.cpp
index 1023d27..2fed736 100644
--- a/src/librcl/object_gain_eq_calculator.cpp
+++ b/src/librcl/object_gain_eq_calculator.cpp
@@ -9,6 +9,7 @@
 #include <librbbl/biquad_coefficient.hpp>
 #include <librbbl/parametric_iir_coefficient_calculator.hpp>
 
+#include <algorithm>
 #include <ciso646>
 
 namespace visr
@@ -85,6 +86,11 @@ void ObjectGainEqCalculator::process( objectmodel::ObjectVector const & objects,
           continue;
         }
         objectSignalGains[ signalChannelIdx ] = objLevel;
+        if( obj.eqCoefficients().size() > cNumberOfBiquadSections )
+        {
+          status( StatusMessage::Warning, "Object id #", obj.id(), " contains more EQ sections than supported (", cNumberOfBiquadSections, ")" );
+          continue; // Keep the neutral EQ.
+        }
         // Potential minor performance improvement possible: For multichannel objects, compute the coefficients only for the first channel,
         // and copy it to the remaining channels.
         rbbl::ParametricIirCoefficientCalculator::calculateIirCoefficients<SampleType>( obj.eqCoefficients(),
-- 
2.43.0


From 5b9719e51cce9df37d1d72e94f6d7dd5158ebdf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:19 +0000
Subject: [PATCH 074/139] fix: HoaAllRadGainCalculator could not be used with a
 tracked listener

---
 src/librcl/hoa_allrad_gain_calculator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/librcl/hoa_allrad_gain_calculator.cpp b/src/librcl/hoa_allrad_gain_calculator.cpp
index ce3674e..228fb22 100644
--- a/src/librcl/hoa_allrad_gain_calculator.cpp
+++ b/src/librcl/hoa_allrad_gain_calculator.cpp
@@ -34,7 +34,7 @@ HoaAllRadGainCalculator( SignalFlowContext const & context,
   , mObjectInput( "objectInput", *this, pml::EmptyParameterConfig() )
   , mGainMatrixInput( "gainInput", *this, pml::MatrixParameterConfig( realArrayConfig.getNumRegularSpeakers(), numberOfObjectChannels ) )
   , mGainMatrixOutput( "gainOutput", *this, pml::MatrixParameterConfig( realArrayConfig.getNumRegularSpeakers(), numberOfObjectChannels ) )
-  , mListenerInput( adaptiveListenerPosition ? new ParameterInput<pml::DoubleBufferingProtocol, pml::ListenerPosition>( "listenerInput", *this ) : nullptr )
+  , mListenerInput( adaptiveListenerPosition ? new ParameterInput<pml::DoubleBufferingProtocol, pml::ListenerPosition>( "listenerInput", *this, pml::EmptyParameterConfig() ) : nullptr )
   , mRegularDecodeMatrix( decodeMatrix.numberOfRows(), regularArrayConfig.getNumRegularSpeakers(), cVectorAlignmentSamples )
   , mRealDecodeMatrix( regularArrayConfig.getNumSpeakers(), realArrayConfig.getNumRegularSpeakers(), cVectorAlignmentSamples )
 {
-- 
2.43.0


From 867a613eba71de78d2123676d2a355e688caee05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:40 +0000
Subject: [PATCH 075/139] fix: CAP_VBAP used an undefined loudspeaker index for
 2D arrays

---
 src/libpanning/CAP_VBAP.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/libpanning/CAP_VBAP.cpp b/src/libpanning/CAP_VBAP.cpp
index 877cdfc..910cc60 100644
--- a/src/libpanning/CAP_VBAP.cpp
+++ b/src/libpanning/CAP_VBAP.cpp
@@ -160,9 +160,10 @@ namespace panning
       l2Y = mPositions( triplet[1], 1 );
       l2Z = mPositions( triplet[1], 2 );
      
-      l3X = mPositions( triplet[2], 0 );
-      l3Y = mPositions( triplet[2], 1 );
-      l3Z = mPositions( triplet[2], 2 );
+      // The third index is undefined for 2D arrays
+      l3X = mArrayIs2D ? 0.0f : mPositions( triplet[2], 0 );
+      l3Y = mArrayIs2D ? 0.0f : mPositions( triplet[2], 1 );
+      l3Z = mArrayIs2D ? 1.0f : mPositions( triplet[2], 2 );
 
    
       // Calc speaker positions relative to listener.
-- 
2.43.0


From 125eaf876fc144dac05fc2c2708a007e5b0b1dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:09 +0000
Subject: [PATCH 076/139] fix: ListenerCompensation wrote past the end of the
 gain and delay vectors for arrays with virtual loudspeakers

---
 src/librcl/listener_compensation.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/librcl/listener_compensation.cpp b/src/librcl/listener_compensation.cpp
index 547b735..c3baa5f 100644
--- a/src/librcl/listener_compensation.cpp
+++ b/src/librcl/listener_compensation.cpp
@@ -106,7 +106,7 @@ int ListenerCompensation::calcGainComp( efl::BasicVector<Afloat> & gainComp )
   y = m_listenerPos.y;
   z = m_listenerPos.z;
 
-  for (std::size_t i = 0; i < m_array.getNumSpeakers(); i++) {
+  for (std::size_t i = 0; i < mNumberOfLoudspeakers; i++) {
 
     l1 = m_array.getPosition( i );
 
@@ -118,7 +118,7 @@ int ListenerCompensation::calcGainComp( efl::BasicVector<Afloat> & gainComp )
       max_rad = gainComp[i];
   }
 
-  for (std::size_t i = 0; i < m_array.getNumSpeakers(); i++) {
+  for (std::size_t i = 0; i < mNumberOfLoudspeakers; i++) {
 
     gainComp[i] = (gainComp[i]/max_rad);
   }
@@ -137,7 +137,7 @@ int ListenerCompensation::calcDelayComp( efl::BasicVector<Afloat> & delayComp )
   y = m_listenerPos.y;
   z = m_listenerPos.z;
 
-  for (std::size_t i = 0; i < m_array.getNumSpeakers(); i++) {
+  for (std::size_t i = 0; i < mNumberOfLoudspeakers; i++) {
 
     l1 = m_array.getPosition( i );
 
@@ -149,7 +149,7 @@ int ListenerCompensation::calcDelayComp( efl::BasicVector<Afloat> & delayComp )
       max_rad = delayComp[i];
   }
 
-  for ( std::size_t i = 0; i < m_array.getNumSpeakers(); i++){
+  for ( std::size_t i = 0; i < mNumberOfLoudspeakers; i++){
 
     delayComp[i] = std::abs(delayComp[i]-max_rad)/c_0;
   }
-- 
2.43.0


From 553277c5d226540ed813dd2bb125af3d2c5f20ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:09 +0000
Subject: [PATCH 077/139] fix: listener compensation gains became NaN for a
 listener at the position of a single loudspeaker

---
 src/librcl/listener_compensation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/librcl/listener_compensation.cpp b/src/librcl/listener_compensation.cpp
index c3baa5f..7eb3286 100644
--- a/src/librcl/listener_compensation.cpp
+++ b/src/librcl/listener_compensation.cpp
@@ -120,7 +120,7 @@ int ListenerCompensation::calcGainComp( efl::BasicVector<Afloat> & gainComp )
 
   for (std::size_t i = 0; i < mNumberOfLoudspeakers; i++) {
 
-    gainComp[i] = (gainComp[i]/max_rad);
+    gainComp[i] = max_rad > 0.0f ? (gainComp[i]/max_rad) : 1.0f;
   }
   return 0;
 }
-- 
2.43.0


From 35eea3e65474db41bb869fd08fa316fe79df89af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:09 +0000
Subject: [PATCH 078/139] fix: PositionDecoder compared timestamps of different
 faces when selecting the smallest face id

---
 src/librcl/position_decoder.cpp | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/librcl/position_decoder.cpp b/src/librcl/position_decoder.cpp
index 93b26b4..e03cc9b 100644
--- a/src/librcl/position_decoder.cpp
+++ b/src/librcl/position_decoder.cpp
@@ -9,6 +9,7 @@
 #include <librbbl/quaternion.hpp>
 
 #include <algorithm>
+#include <ciso646>
 #include <iostream>
 #include <limits>
 #include <sstream>
@@ -60,15 +61,13 @@ void PositionDecoder::process()
     try
     {
       newPos.parseJson( msgStream );
-      if( newPos.faceID() <= smallestFaceId )
+      // for a given face ID, update the position only if the timestamp is not older than the previously received timestamp.
+      if( newPos.faceID() < smallestFaceId
+          or (newPos.faceID() == smallestFaceId and newPos.timeNs() >= latestTimeStamp) )
       {
-        // for a given face ID, update the position only if the timestamp is not older than the previously received timestamp.
-        if( newPos.timeNs() >= latestTimeStamp )
-        {
-          foundPos = newPos;
-          smallestFaceId = foundPos.faceID();
-          latestTimeStamp = foundPos.timeNs();
-        }
+        foundPos = newPos;
+        smallestFaceId = foundPos.faceID();
+        latestTimeStamp = foundPos.timeNs();
       }
     }
     catch( std::exception const & ex )
-- 
2.43.0


From 343e4bb7594dbab8fc19cd762e36e782a6763414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:09 +0000
Subject: [PATCH 079/139] fix: the normalise argument of the Quaternion
 constructor was ignored

---
 src/librbbl/quaternion.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/librbbl/quaternion.cpp b/src/librbbl/quaternion.cpp
index b78f958..b1bed45 100644
--- a/src/librbbl/quaternion.cpp
+++ b/src/librbbl/quaternion.cpp
@@ -26,6 +26,10 @@ Quaternion< CoordinateType >::Quaternion( Coordinate w, Coordinate x,
                                           bool normalise /*= false*/ )
  : mQuat{ w, x, y, z }
 {
+  if( normalise )
+  {
+    this->normalise();
+  }
 }
 
 template< typename CoordinateType >
-- 
2.43.0


From c0467f267416a2f7044b00afee229c11c95c8331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:09 +0000
Subject: [PATCH 080/139] fix: angular distance between quaternions

---
 src/librbbl/quaternion.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/librbbl/quaternion.cpp b/src/librbbl/quaternion.cpp
index b1bed45..95e0ac7 100644
--- a/src/librbbl/quaternion.cpp
+++ b/src/librbbl/quaternion.cpp
@@ -338,7 +338,7 @@ CoordinateType angleNormalised( Quaternion< CoordinateType > const& q1,
   // First (w) component of the difference rotation quaternion q1*conj(q2)
   // Note: Despite the above formula, this is the standard dot product (according to the source)
   CT const wDot{ dot( q1, q2 ) };
-  CT const wDiff{ std::sqrt( std::abs( wDot ) ) };
+  CT const wDiff{ std::abs( wDot ) };
   // Clip using min/max to avoid arguments with  abs( x ) > 1.0 due to numerical errors.
   return static_cast<CT>(2.0)* std::acos( std::max( std::min( wDiff, static_cast<CT>(1.0) ),
     static_cast<CT>(-1.0) ) );
-- 
2.43.0


From 02d7e24ef92a276f2211a50500d2d3f5fcbc69ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:09 +0000
Subject: [PATCH 081/139] fix: spherical interpolation between identical
 quaternions yielded NaNs

---
 src/librbbl/quaternion.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/librbbl/quaternion.cpp b/src/librbbl/quaternion.cpp
index 95e0ac7..22bb275 100644
--- a/src/librbbl/quaternion.cpp
+++ b/src/librbbl/quaternion.cpp
@@ -380,6 +380,10 @@ interpolateSpherical( Quaternion< CoordinateType > const& pos0,
     std::min( static_cast< CoordinateType >(1.0),
       std::max( static_cast< CoordinateType >(-1.0),
         dot( normalise(pos0), normalise(pos1) ) ) ) );
+  if( omega < std::numeric_limits< CoordinateType >::epsilon() )
+  {
+    return (static_cast< CoordinateType >(1.0) - tInterp) * pos0 + tInterp * pos1;
+  }
   CoordinateType const sinOmega = std::sin( omega );
   CoordinateType const sf1 = std::sin((static_cast<CoordinateType>(1.0)-tInterp)*omega) / sinOmega;
   CoordinateType const sf2 = std::sin(tInterp*omega) / sinOmega;
-- 
2.43.0


From d79cc1e2425139c2a0ff1b9ff16fee844309174f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:26 +0000
Subject: [PATCH 082/139] fix: the yaw of orientations pointing straight up or
 down was lost in the conversion to yaw, pitch and roll

---
 src/librbbl/quaternion.cpp | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/src/librbbl/quaternion.cpp b/src/librbbl/quaternion.cpp
index 22bb275..d9dcf3a 100644
--- a/src/librbbl/quaternion.cpp
+++ b/src/librbbl/quaternion.cpp
@@ -7,6 +7,7 @@
 #include <boost/math/constants/constants.hpp>
 
 #include <ciso646>
+#include <cmath>
 #include <limits>
 #include <stdexcept>
 
@@ -105,9 +106,29 @@ void Quaternion< CoordinateType >::setZ( CoordinateType newZ )
   mQuat = InternalType( w(), x(), y(), newZ );
 }
 
+namespace // unnamed
+{
+/**
+ * Check for the gimbal lock case (pitch of +/- 90 degree), where only the
+ * combination of yaw and roll is determined. In this case, the roll is set to 0.
+ */
+template< typename CoordinateType >
+bool isGimbalLock( Quaternion< CoordinateType > const & q )
+{
+  using T = CoordinateType;
+  return std::abs( static_cast<T>(2.0)*(q.w()*q.y()-q.z()*q.x()) )
+    >= static_cast<T>(1.0) - static_cast<T>(4.0) * std::numeric_limits<T>::epsilon();
+}
+} // unnamed namespace
+
 template< typename CoordinateType >
 CoordinateType Quaternion< CoordinateType >::yaw() const
 {
+  if( isGimbalLock( *this ) )
+  {
+    return std::remainder( static_cast<CoordinateType>(2.0) * std::atan2( z(), w() ),
+      boost::math::constants::two_pi< CoordinateType >() );
+  }
   // yaw = atan2( 2*(q.w*q.z+q.x*q.y), 1-2*(q.y * q.y + q.z * q.z) )
   using T = CoordinateType;
   return std::atan2( static_cast<T>(2.0)*(w()*z() +x()*y()),
@@ -130,6 +151,10 @@ CoordinateType Quaternion< CoordinateType >::pitch() const
 template< typename CoordinateType >
 CoordinateType Quaternion< CoordinateType >::roll() const
 {
+  if( isGimbalLock( *this ) )
+  {
+    return static_cast< CoordinateType >( 0.0 );
+  }
   return std::atan2(
       static_cast< CoordinateType >( 2.0 ) * ( w() * x() + y() * z() ),
       static_cast< CoordinateType >( 1.0 ) -
-- 
2.43.0


From f6a51e0e7e9aa578fb54b591a21c94b328ede0a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:06 +0000
Subject: [PATCH 083/139] fix: the object renderer could not be used with
 listener tracking because the HOA gain calculator did not get the listener
 position

---
 src/libsignalflows/core_renderer.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/libsignalflows/core_renderer.cpp b/src/libsignalflows/core_renderer.cpp
index 6d0a8dd..c11b829 100644
--- a/src/libsignalflows/core_renderer.cpp
+++ b/src/libsignalflows/core_renderer.cpp
@@ -217,6 +217,10 @@ CoreRenderer::CoreRenderer( SignalFlowContext const & context,
   parameterConnection( mObjectVectorInput, mAllradGainCalculator->parameterPort("objectInput") );
   parameterConnection( mGainCalculator.parameterPort( "vbapGains" ), mAllradGainCalculator->parameterPort( "gainInput" ) );
   parameterConnection( mAllradGainCalculator->parameterPort( "gainOutput" ), mVbapMatrix.parameterPort( "gainInput" ) );
+  if( trackingEnabled )
+  {
+    parameterConnection( *mTrackingPositionInput, mAllradGainCalculator->parameterPort( "listenerInput" ) );
+  }
 
   //////////////////////////////////////////////////////////////////////////////////////
 
-- 
2.43.0


From ed15668d306cb47e35f93dd1fa667e04c4c83ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:06 +0000
Subject: [PATCH 084/139] fix: subwoofers and output equalisation were not
 connected in the object renderer with listener tracking

---
 src/libsignalflows/core_renderer.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/libsignalflows/core_renderer.cpp b/src/libsignalflows/core_renderer.cpp
index c11b829..f103dcd 100644
--- a/src/libsignalflows/core_renderer.cpp
+++ b/src/libsignalflows/core_renderer.cpp
@@ -272,12 +272,18 @@ CoreRenderer::CoreRenderer( SignalFlowContext const & context,
     audioConnection( mListenerGainDelayCompensation->audioPort("out"), mSubwooferMix.audioPort("in") );
     if( outputEqSupport )
     {
-      audioConnection( mListenerGainDelayCompensation->audioPort("out"), mOutputEqualisationFilter->audioPort("in") );
+      audioConnection( mListenerGainDelayCompensation->audioPort("out"), ChannelRange( 0, numberOfLoudspeakers ),
+                       mOutputEqualisationFilter->audioPort("in"), ChannelRange( 0, numberOfLoudspeakers ) );
+      audioConnection( mSubwooferMix.audioPort("out"), ChannelRange( 0, numberOfSubwoofers ),
+                       mOutputEqualisationFilter->audioPort("in"), ChannelRange( numberOfLoudspeakers, numberOfLoudspeakers + numberOfSubwoofers ) );
+      audioConnection( mOutputEqualisationFilter->audioPort("out"), mOutputAdjustment.audioPort("in") );
     }
     else
     {
       audioConnection( mListenerGainDelayCompensation->audioPort("out"), ChannelRange( 0, numberOfLoudspeakers ),
                        mOutputAdjustment.audioPort("in"), ChannelRange( 0, numberOfLoudspeakers ) );
+      audioConnection( mSubwooferMix.audioPort("out"), ChannelRange( 0, numberOfSubwoofers ),
+                       mOutputAdjustment.audioPort("in"), ChannelRange( numberOfLoudspeakers, numberOfLoudspeakers + numberOfSubwoofers ) );
     }
   }
   else
-- 
2.43.0


From fdb140ac82f38a1ff50416cd6d5417279fa04702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:06 +0000
Subject: [PATCH 085/139] fix: BaselineRenderer did not connect the tracking
 receiver to the position decoder

---
 src/libsignalflows/baseline_renderer.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libsignalflows/baseline_renderer.cpp b/src/libsignalflows/baseline_renderer.cpp
index 1a2baf9..35ba2a5 100644
--- a/src/libsignalflows/baseline_renderer.cpp
+++ b/src/libsignalflows/baseline_renderer.cpp
@@ -61,6 +61,7 @@ BaselineRenderer::BaselineRenderer( SignalFlowContext const & context,
   {
     mTrackingReceiver.reset( new rcl::UdpReceiver( context, "TrackingReceiver", this, 8888, rcl::UdpReceiver::Mode::Synchronous) );
     mTrackingPositionDecoder.reset( new rcl::PositionDecoder( context, "TrackingPositionDecoder", this ) );
+    parameterConnection( mTrackingReceiver->parameterPort("messageOutput"), mTrackingPositionDecoder->parameterPort("messageInput") );
     parameterConnection( mTrackingPositionDecoder->parameterPort("positionOutput"), mCoreRenderer.parameterPort("trackingPositionInput") );
   }
 }
-- 
2.43.0


From fa0939a8585bc7eab412778d4bd09f6dc6506acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:08 +0000
Subject: [PATCH 086/139] fix: uniformly partitioned convolvers with filters of
 length zero divided by zero, e.g. in renderers without diffusion filters

---
 src/librbbl/core_convolver_uniform.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/librbbl/core_convolver_uniform.cpp b/src/librbbl/core_convolver_uniform.cpp
index 2dbdaa2..fdb48a8 100644
--- a/src/librbbl/core_convolver_uniform.cpp
+++ b/src/librbbl/core_convolver_uniform.cpp
@@ -4,7 +4,9 @@
 
 #include <librbbl/fft_wrapper_factory.hpp>
 
+#include <algorithm>
 #include <ciso646>
+#include <cmath>
 #include <complex>
 
 namespace visr
@@ -137,7 +139,8 @@ template< typename SampleType >
 /*static*/ std::size_t CoreConvolverUniform<SampleType>::
 calculateNumberOfPartitions( std::size_t filterLength, std::size_t blockLength )
 {
-  return static_cast<std::size_t>(std::ceil( static_cast<double>(filterLength) / blockLength ));
+  // The frequency-domain delay line holds at least the current block, also for filters of length zero.
+  return std::max( static_cast<std::size_t>(1), static_cast<std::size_t>(std::ceil( static_cast<double>(filterLength) / blockLength )) );
 }
 
 template< typename SampleType >
-- 
2.43.0


From e028b41836c41ee4e9a8eb87028249c7ee784713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:02 +0000
Subject: [PATCH 087/139] fix: HOA objects were lowpass-filtered by object
 renderers with frequency-dependent panning

---
 src/libsignalflows/core_renderer.cpp | 15 +++++++++++++--
 src/libsignalflows/core_renderer.hpp |  6 ++++++
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/libsignalflows/core_renderer.cpp b/src/libsignalflows/core_renderer.cpp
index f103dcd..41cb255 100644
--- a/src/libsignalflows/core_renderer.cpp
+++ b/src/libsignalflows/core_renderer.cpp
@@ -171,8 +171,6 @@ CoreRenderer::CoreRenderer( SignalFlowContext const & context,
     mPanningFilterbank.reset( new rcl::BiquadIirFilter(context, "PanningFilterbank", this,
        2*numberOfInputs, 1, coeffMatrix ) );
     mVbipMatrix->setup( numberOfInputs, numberOfLoudspeakers, interpolationPeriod, 0.0f );
-    parameterConnection( mGainCalculator.parameterPort("vbipGains"), mVbipMatrix->parameterPort( "gainInput") );
-
     audioConnection( mObjectEq.audioPort("out"), ChannelRange( 0, numberOfInputs ), mPanningFilterbank->audioPort("in"), ChannelRange( 0, numberOfInputs ) );
     audioConnection( mObjectEq.audioPort("out"), ChannelRange( 0, numberOfInputs ), mPanningFilterbank->audioPort("in"), ChannelRange( numberOfInputs, 2*numberOfInputs ) );
     audioConnection( mPanningFilterbank->audioPort("out"), ChannelRange( 0, numberOfInputs ), mVbapMatrix.audioPort("in"), ChannelRange( 0, numberOfInputs ) );
@@ -221,6 +219,19 @@ CoreRenderer::CoreRenderer( SignalFlowContext const & context,
   {
     parameterConnection( *mTrackingPositionInput, mAllradGainCalculator->parameterPort( "listenerInput" ) );
   }
+  if( frequencyDependentPanning ) // HOA objects are decoded identically in both frequency bands.
+  {
+    mAllradGainCalculatorHf.reset( new rcl::HoaAllRadGainCalculator( context, "AllRadGainCalculatorHf", this,
+                                   numberOfInputs, allRadRegArray, loudspeakerConfiguration, allRadDecoderGains,
+                                   pml::ListenerPosition(), trackingEnabled ) );
+    parameterConnection( mObjectVectorInput, mAllradGainCalculatorHf->parameterPort("objectInput") );
+    parameterConnection( mGainCalculator.parameterPort( "vbipGains" ), mAllradGainCalculatorHf->parameterPort( "gainInput" ) );
+    parameterConnection( mAllradGainCalculatorHf->parameterPort( "gainOutput" ), mVbipMatrix->parameterPort( "gainInput" ) );
+    if( trackingEnabled )
+    {
+      parameterConnection( *mTrackingPositionInput, mAllradGainCalculatorHf->parameterPort( "listenerInput" ) );
+    }
+  }
 
   //////////////////////////////////////////////////////////////////////////////////////
 
diff --git a/src/libsignalflows/core_renderer.hpp b/src/libsignalflows/core_renderer.hpp
index 41dd1ea..a2f3610 100644
--- a/src/libsignalflows/core_renderer.hpp
+++ b/src/libsignalflows/core_renderer.hpp
@@ -117,6 +117,12 @@ private:
 
   std::unique_ptr< rcl::HoaAllRadGainCalculator > mAllradGainCalculator;
 
+  /**
+   * Calculator inserting the HOA decoding gains into the gains for the high-frequency band.
+   * Instantiated only if frequency-dependent panning is used.
+   */
+  std::unique_ptr< rcl::HoaAllRadGainCalculator > mAllradGainCalculatorHf;
+
   rcl::GainMatrix mVbapMatrix;
 
   /**
-- 
2.43.0


From 7574763ee2933db49c6d2a5ef6f85d4838e53525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:18 +0000
Subject: [PATCH 088/139] fix: BunchRenderer could not be created with
 different numbers of inputs and outputs

---
 src/libsignalflows/bunch_renderer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libsignalflows/bunch_renderer.cpp b/src/libsignalflows/bunch_renderer.cpp
index 6bf584f..91df31a 100644
--- a/src/libsignalflows/bunch_renderer.cpp
+++ b/src/libsignalflows/bunch_renderer.cpp
@@ -47,7 +47,7 @@ BunchRenderer::BunchRenderer( SignalFlowContext const & context,
   parameterConnection("SceneDecoder", "objectVectorOutput", "CoreRenderer", "objectDataInput" );
 
   audioConnection("", "input", ChannelRange(0, numberOfInputs), "CoreRenderer", "audioIn", ChannelRange(0, numberOfInputs) );
-  audioConnection("CoreRenderer", "audioOut", ChannelRange(0, numberOfOutputs), "", "output", ChannelRange(0, numberOfInputs) );
+  audioConnection("CoreRenderer", "audioOut", ChannelRange(0, numberOfOutputs), "", "output", ChannelRange(0, numberOfOutputs) );
 }
 
 BunchRenderer::~BunchRenderer( )
-- 
2.43.0


From a0d7ab3331a1e20ef8b8b9de08a6c42a3ded2de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:00 +0000
Subject: [PATCH 089/139] fix: UdpSender truncated messages at the first null
 character in asynchronous mode

---
 src/librcl/udp_sender.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/librcl/udp_sender.cpp b/src/librcl/udp_sender.cpp
index 6235fec..f31b6bf 100644
--- a/src/librcl/udp_sender.cpp
+++ b/src/librcl/udp_sender.cpp
@@ -188,8 +188,7 @@ void UdpSender::Impl::process( UdpSender::MessageInput & messageInput )
       bool const transmissionPending = not mInternalMessageBuffer.empty();
       while( not messageInput.empty() )
       {
-        char const * nextMsg = messageInput.front().str();
-        mInternalMessageBuffer.push_back( pml::StringParameter( nextMsg ) );
+        mInternalMessageBuffer.push_back( messageInput.front() );
         messageInput.pop();
       }
       if( not mInternalMessageBuffer.empty() and not transmissionPending )
-- 
2.43.0


From c55508eaa129c548034e10bb8ac76bb54c8f01ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:59 +0000
Subject: [PATCH 090/139] fix: PanningMatrixParameter could only be assigned if
 it had as many objects as loudspeakers

---
 src/libpanningdsp/panning_matrix_parameter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libpanningdsp/panning_matrix_parameter.cpp b/src/libpanningdsp/panning_matrix_parameter.cpp
index 10fa5aa..df8d315 100644
--- a/src/libpanningdsp/panning_matrix_parameter.cpp
+++ b/src/libpanningdsp/panning_matrix_parameter.cpp
@@ -157,8 +157,8 @@ PanningMatrixParameter& PanningMatrixParameter::operator=(PanningMatrixParameter
   {
     mTimeStamps.resize(rhs.numberOfObjects());
     mTransitionTimes.resize(rhs.numberOfObjects());
-    mGains.resize(rhs.numberOfLoudspeakers(),
-      rhs.numberOfObjects());
+    mGains.resize(rhs.numberOfObjects(),
+      rhs.numberOfLoudspeakers());
     copy(rhs.timeStamps(), timeStamps());
     copy(rhs.transitionTimes(), transitionTimes());
     mGains.copy(rhs.gains());
-- 
2.43.0


From b63591b440110de9949efa038205f56cb96f929f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:25 +0000
Subject: [PATCH 091/139] fix: PanningGainMatrix jumped or stopped when a gain
 transition was interrupted or a stored transition replaced

---
 src/libpanningdsp/panning_gain_matrix.cpp | 127 ++++++++--------------
 src/libpanningdsp/panning_gain_matrix.hpp |   9 ++
 2 files changed, 56 insertions(+), 80 deletions(-)

diff --git a/src/libpanningdsp/panning_gain_matrix.cpp b/src/libpanningdsp/panning_gain_matrix.cpp
index aad12a4..fdcd966 100644
--- a/src/libpanningdsp/panning_gain_matrix.cpp
+++ b/src/libpanningdsp/panning_gain_matrix.cpp
@@ -185,48 +185,26 @@ void PanningGainMatrix::processAudio()
       assert( currentTime >= mPreviousTime[ objIdx ] );
       assert( currentTime < mTargetTime[ objIdx ] );
       assert( mPendingTransitions[0].timeStamps()[objIdx] > currentTime );
-      Time::IntegerTimeType const duration{ std::min( 
-        mTargetTime[ objIdx ], blockEndTime ) - currentTime };
+      Time::IntegerTimeType const duration{ std::min( { mTargetTime[ objIdx ],
+        mPendingTransitions[0].timeStamps()[ objIdx ], blockEndTime } ) - currentTime };
       assert( duration > 0 ); // Otherwise this is a logical error,
       processAudioSingleSlope( objIdx, currentTime, bufferOffset, duration, accumulateFlag, 
         0 /*Alignment not guaranteed for arbitrary offsets.*/  );
 
       currentTime += duration;
       bufferOffset += duration;
-      if( currentTime == mTargetTime[objIdx] )
+      if( currentTime == mTargetTime[objIdx] ) // Present transition is finished, keep the gains constant.
       {
         mPreviousTime[ objIdx ] = currentTime;
-        TimeType const nextStartTime{ mPendingTransitions[0].timeStamps()[ objIdx ] };
-        if( nextStartTime == currentTime ) // next transition starts immediately
-        {
-          TimeType const transitionTime{ mPendingTransitions[0].transitionTimes()[ objIdx ] };
-          if( transitionTime == 0 )
-          {
-            copyRow( mPendingTransitions[0].gains().row( objIdx ),
-                mPreviousGains.row( objIdx ),
-                numLsp, visr::cVectorAlignmentSamples );
-            mTargetTime[ objIdx ] = cTimeStampInfinity;
-          }
-          else
-          {
-            copyRow( mTargetGains.row( objIdx ), mPreviousGains.row( objIdx ),
-                numLsp, visr::cVectorAlignmentSamples );
-            mTargetTime[ objIdx ] = currentTime + transitionTime;
-          }
-          copyRow( mPendingTransitions[0].gains().row( objIdx ),
-              mTargetGains.row( objIdx ),
-              numLsp, visr::cVectorAlignmentSamples );
-          mPendingTransitions[0].timeStamps()[ objIdx ] = cTimeStampInfinity;
-          mPendingTransitions[0].transitionTimes()[ objIdx ] = cTimeStampInfinity;
-        }
-        else // There's a gap to the next transition
-        {
-          mTargetTime[ objIdx ] = nextStartTime;
-          copyRow( mTargetGains.row( objIdx ), mPreviousGains.row( objIdx ),
-              numLsp, visr::cVectorAlignmentSamples );
-          // mTargetGains remain unchanged.
-
-        }
+        mTargetTime[ objIdx ] = cTimeStampInfinity;
+        copyRow( mTargetGains.row( objIdx ), mPreviousGains.row( objIdx ),
+            numLsp, visr::cVectorAlignmentSamples );
+        // mTargetGains remain unchanged.
+      }
+      if( currentTime == mPendingTransitions[0].timeStamps()[ objIdx ] ) // The stored transition becomes the present one.
+      {
+        startTransition( objIdx, currentTime, mPendingTransitions[0].transitionTimes()[ objIdx ],
+          mPendingTransitions[0].gains().row( objIdx ) );
       }
     } // while(true)
   }
@@ -294,62 +272,51 @@ void PanningGainMatrix::updateTransition( std::size_t objIdx,
     status( StatusMessage::Error, "Time stamp of gain change is in the past." );
     return;
   }
-  std::size_t const numLsp{ mTargetGains.numberOfColumns() };
   // Special case: we have to update the data members immediately.
   if( startTime == currentTime )
   {
-    mPreviousTime[ objIdx ] = currentTime;
-    if( duration == 0 ) // Immediate change w/o interpolation (e.g., jump position)
-    {
-      copyRow( gains, mPreviousGains.row( objIdx ), numLsp, 
-        0 /*Do not assume special alignment*/ );
-      copyRow( gains, mTargetGains.row( objIdx ), numLsp, 
-        0 /*Do not assume special alignment*/ );
-      mTargetTime[ objIdx ] = cTimeStampInfinity;
-    }
-    else
-    {
-      // Adjust the current target gains by computing the value at 
-      // startTime
-      GainType const alpha = interpolationRatio( currentTime,
-          mPreviousTime[ objIdx ], mTargetTime[ objIdx ] );
-      // TODO: turn into a vector function.
-      for( std::size_t lspIdx{ 0 }; lspIdx < numLsp; ++lspIdx)
-      {
-        mPreviousGains( objIdx, lspIdx ) = alpha * mTargetGains( objIdx, lspIdx )
-          + (1.0f - alpha ) * mPreviousGains( objIdx, lspIdx );
-      }
-      copyRow( gains, mTargetGains.row( objIdx ), numLsp,
-        0 /*Do not assume special alignment*/ );
-      mTargetTime[ objIdx ] = currentTime + duration;
-    }
-    // Clear next pending transition
-    mPendingTransitions[0].timeStamps()[ objIdx ] = cTimeStampInfinity;
-    mPendingTransitions[0].transitionTimes()[ objIdx ] = cTimeStampInfinity;
-    copyRow( mTargetGains.row( objIdx ), mPendingTransitions[0].gains().row( objIdx ), numLsp );
+    startTransition( objIdx, currentTime, duration, gains );
   }
   else
   {
-    if( startTime < mTargetTime[ objIdx ] )
-    {
-      // Adjust the current target gains by computing the value at 
-      // startTime
-      GainType const alpha = interpolationRatio( currentTime,
-          mPreviousTime[ objIdx ], mTargetTime[ objIdx ] );
-      std::size_t const numLsp{ mTargetGains.numberOfColumns() };
-      // TODO: turn into a vector function.
-      for( std::size_t lspIdx{ 0 }; lspIdx < numLsp; ++lspIdx)
-      {
-        mTargetGains( objIdx, lspIdx ) = alpha * mTargetGains( objIdx, lspIdx )
-          + (1.0f - alpha ) * mPreviousGains( objIdx, lspIdx );
-      }
-      mTargetTime[ objIdx ] = startTime;
-    }
     mPendingTransitions[0].timeStamps()[ objIdx ] = startTime;
     mPendingTransitions[0].transitionTimes()[ objIdx ] = duration;
     copyRow( gains, mPendingTransitions[0].gains().row( objIdx ),
-      numLsp );
+      mTargetGains.numberOfColumns() );
+  }
+}
+
+void PanningGainMatrix::startTransition( std::size_t objIdx,
+  TimeType startTime,
+  TimeType duration,
+  SampleType const * gains )
+{
+  std::size_t const numLsp{ mTargetGains.numberOfColumns() };
+  if( duration == 0 ) // Immediate change w/o interpolation (e.g., jump position)
+  {
+    copyRow( gains, mPreviousGains.row( objIdx ), numLsp,
+      0 /*Do not assume special alignment*/ );
+    mTargetTime[ objIdx ] = cTimeStampInfinity;
+  }
+  else
+  {
+    // Determine the gains at startTime if there is a transition in progress.
+    GainType const alpha = interpolationRatio( startTime,
+        mPreviousTime[ objIdx ], mTargetTime[ objIdx ] );
+    // TODO: turn into a vector function.
+    for( std::size_t lspIdx{ 0 }; lspIdx < numLsp; ++lspIdx)
+    {
+      mPreviousGains( objIdx, lspIdx ) = alpha * mTargetGains( objIdx, lspIdx )
+        + (1.0f - alpha ) * mPreviousGains( objIdx, lspIdx );
+    }
+    mTargetTime[ objIdx ] = startTime + duration;
   }
+  mPreviousTime[ objIdx ] = startTime;
+  copyRow( gains, mTargetGains.row( objIdx ), numLsp,
+    0 /*Do not assume special alignment*/ );
+  // Clear the stored transition
+  mPendingTransitions[0].timeStamps()[ objIdx ] = cTimeStampInfinity;
+  mPendingTransitions[0].transitionTimes()[ objIdx ] = cTimeStampInfinity;
 }
 
 void PanningGainMatrix::scaleSignal( SampleType const * input, SampleType * output,
diff --git a/src/libpanningdsp/panning_gain_matrix.hpp b/src/libpanningdsp/panning_gain_matrix.hpp
index d5f0731..df40245 100644
--- a/src/libpanningdsp/panning_gain_matrix.hpp
+++ b/src/libpanningdsp/panning_gain_matrix.hpp
@@ -204,6 +204,15 @@ private:
                          TimeType duration,
                          SampleType const * gains );
 
+  /**
+   * Replace the present transition of an object by one that starts at the
+   * specified time.
+   */
+  void startTransition( std::size_t objIndex,
+                        TimeType startTime,
+                        TimeType duration,
+                        SampleType const * gains );
+
   void scaleSignal( SampleType const * input,
                     SampleType * output,
                     std::size_t startIdx,
-- 
2.43.0


From 32ec795009489f8fafba96665b0b15757ab244e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:25 +0000
Subject: [PATCH 092/139] fix: a late transition blocked PanningGainMatrix and
 discarded the transitions of other objects

---
 src/libpanningdsp/panning_gain_matrix.cpp | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/libpanningdsp/panning_gain_matrix.cpp b/src/libpanningdsp/panning_gain_matrix.cpp
index fdcd966..af2ee38 100644
--- a/src/libpanningdsp/panning_gain_matrix.cpp
+++ b/src/libpanningdsp/panning_gain_matrix.cpp
@@ -238,8 +238,8 @@ void PanningGainMatrix::processParameters()
   if( mGainInput.changed() )
   {
     TimeType const currentTime{ time().sampleCount() };
+    mGainInput.resetChanged(); // Do not apply a message again if it contains inadmissible transitions.
     updateTransitions( currentTime, mGainInput.data() );
-    mGainInput.resetChanged();
   }
 }
 
@@ -248,13 +248,23 @@ updateTransitions(  TimeType currentTime,
     PanningMatrixParameter const & newParams )
 {
   std::size_t const numObjs{ mTargetGains.numberOfRows() };
+  bool admissible{ true };
   for( std::size_t objIdx{ 0 }; objIdx < numObjs; ++objIdx )
   {
-    updateTransition( objIdx, currentTime,
-      newParams.timeStamps()[objIdx],
+    TimeType const startTime{ newParams.timeStamps()[objIdx] };
+    if( (startTime != cTimeStampInfinity) and (startTime < currentTime) )
+    {
+      admissible = false; // Ignore this transition, but not those of the other objects.
+      continue;
+    }
+    updateTransition( objIdx, currentTime, startTime,
       newParams.transitionTimes()[objIdx],
       newParams.gains().row( objIdx ) );
   }
+  if( not admissible )
+  {
+    status( StatusMessage::Error, "Time stamp of gain change is in the past." );
+  }
 }
 
 void PanningGainMatrix::updateTransition( std::size_t objIdx,
@@ -267,11 +277,6 @@ void PanningGainMatrix::updateTransition( std::size_t objIdx,
   {
     return;
   }
-  if( startTime < currentTime )
-  {
-    status( StatusMessage::Error, "Time stamp of gain change is in the past." );
-    return;
-  }
   // Special case: we have to update the data members immediately.
   if( startTime == currentTime )
   {
-- 
2.43.0


From 04cb9c6ee71cc42d43c764d8a022fbe1b1648443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:16 +0000
Subject: [PATCH 093/139] fix: ScalarOscDecoder produced values for messages
 without a matching argument and lost messages after a negative value

---
 src/librcl/scalar_osc_decoder.cpp | 32 +++++++++++++++++++++++++------
 1 file changed, 26 insertions(+), 6 deletions(-)

diff --git a/src/librcl/scalar_osc_decoder.cpp b/src/librcl/scalar_osc_decoder.cpp
index d57f183..dff9407 100644
--- a/src/librcl/scalar_osc_decoder.cpp
+++ b/src/librcl/scalar_osc_decoder.cpp
@@ -74,22 +74,34 @@ void ScalarOscDecoder::process()
         if( mBoolOutput )
         {
           bool val(false);
-          msgPkt->arg().popBool( val );
+          if( not msgPkt->arg().popBool( val ).isOk() )
+          {
+            status( StatusMessage::Warning, "Ignored an OSC message without a boolean argument." );
+            continue;
+          }
           mBoolOutput->enqueue( pml::ScalarParameter<bool>(val) );
         }
         if( mIntOutput )
         {
           int val{std::numeric_limits<int>::max()};
-          msgPkt->arg().popInt32( val );
+          if( not msgPkt->arg().popInt32( val ).isOk() )
+          {
+            status( StatusMessage::Warning, "Ignored an OSC message without an integer argument." );
+            continue;
+          }
           mIntOutput->enqueue( pml::ScalarParameter<int>( val ) );
         }
         if( mUIntOutput )
         {
           int val{ std::numeric_limits<int>::max() };
-          msgPkt->arg().popInt32( val );
+          if( not msgPkt->arg().popInt32( val ).isOk() )
+          {
+            status( StatusMessage::Warning, "Ignored an OSC message without an integer argument." );
+            continue;
+          }
           if( val < 0 )
           {
-            status( StatusMessage::Error, "Encountered negative value while decoding unsigned int." );
+            status( StatusMessage::Warning, "Encountered negative value while decoding unsigned int." );
             continue;
           }
           mUIntOutput->enqueue( pml::ScalarParameter<unsigned int>( val ) );
@@ -97,13 +109,21 @@ void ScalarOscDecoder::process()
         if( mFloatOutput )
         {
           float val{ std::numeric_limits<float>::quiet_NaN() };
-          msgPkt->arg().popFloat( val );
+          if( not msgPkt->arg().popFloat( val ).isOk() )
+          {
+            status( StatusMessage::Warning, "Ignored an OSC message without a float argument." );
+            continue;
+          }
           mFloatOutput->enqueue( pml::ScalarParameter<float>( val ) );
         }
         if( mDoubleOutput )
         {
           double val{ std::numeric_limits<double>::quiet_NaN() };
-          msgPkt->arg().popDouble( val );
+          if( not msgPkt->arg().popDouble( val ).isOk() )
+          {
+            status( StatusMessage::Warning, "Ignored an OSC message without a double argument." );
+            continue;
+          }
           mDoubleOutput->enqueue( pml::ScalarParameter<double>( val ) );
         }
       }
-- 
2.43.0


From 86164cb06eb21b6083dea2d2faaf2491fa4a930e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:17 +0000
Subject: [PATCH 094/139] fix: faulty options in an option file raised an
 exception instead of a parse failure

---
 src/libapputilities/options.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/libapputilities/options.cpp b/src/libapputilities/options.cpp
index 565a76e..3bf6b3b 100644
--- a/src/libapputilities/options.cpp
+++ b/src/libapputilities/options.cpp
@@ -84,9 +84,17 @@ Options::ParseResult Options::parse( int argc, char const * const * argv, std::o
     std::string sstr = fileContent.str();
     boost::tokenizer<boost::escaped_list_separator<char> > tok(sstr, sep);
     std::vector<std::string> args;
-    std::copy(tok.begin(), tok.end(), std::back_inserter(args));
-    // Parse the file and store the options
-    store(boost::program_options::command_line_parser(args).options(mDescription).run(), mVariablesMap);
+    try
+    {
+      std::copy(tok.begin(), tok.end(), std::back_inserter(args));
+      // Parse the file and store the options
+      store(boost::program_options::command_line_parser(args).options(mDescription).run(), mVariablesMap);
+    }
+    catch( std::exception const & ex )
+    {
+      errMsg << ex.what();
+      return ParseResult::Failure;
+    }
   }
 
   if( getOption<bool>( "help" ) )
-- 
2.43.0


From 6ec6b0a947cba10a42cc104655b35993a13a8ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:40 +0000
Subject: [PATCH 095/139] fix: the matrix convolver accepted overlapping filter
 files and wrote outside of its filter matrix

---
 src/apps/matrix_convolver/init_filter_matrix.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/apps/matrix_convolver/init_filter_matrix.cpp b/src/apps/matrix_convolver/init_filter_matrix.cpp
index b730ff1..61868e3 100644
--- a/src/apps/matrix_convolver/init_filter_matrix.cpp
+++ b/src/apps/matrix_convolver/init_filter_matrix.cpp
@@ -134,12 +134,12 @@ void initFilterMatrix( std::string const & filterList,
     [&startIndex]( std::size_t a, std::size_t b ) { return startIndex[a] < startIndex[b]; } );
   for( std::size_t runIdx( 1 ); runIdx < numFilterFiles; ++runIdx )
   {
-    if( startIndex[orderByStartIndex[runIdx] - 1] > endIndex[orderByStartIndex[runIdx]] ) // "==" is legal due to the one-past-end convention of endIndex
+    if( endIndex[orderByStartIndex[runIdx - 1]] > startIndex[orderByStartIndex[runIdx]] ) // "==" is legal due to the one-past-end convention of endIndex
     {
       throw std::invalid_argument( "MatrixConvolver::initFilter(): The index ranges of the filters overlap." );
     }
   }
-  std::size_t const maxUsedIndex = endIndex.back(); // one past end
+  std::size_t const maxUsedIndex = *std::max_element( endIndex.begin(), endIndex.end() ); // one past end
   if( maxFilterEntries != std::numeric_limits<std::size_t>::max( ) // special value? 
     and( maxUsedIndex > maxFilterEntries ) )
   {
-- 
2.43.0


From 775a1a0032c2070590e9bb5de7af837d10866493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:35 +0000
Subject: [PATCH 096/139] fix: the GainMatrix signal flow could not be
 constructed (wrong port names, unconnected control input)

---
 src/libsignalflows/gain_matrix.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/libsignalflows/gain_matrix.cpp b/src/libsignalflows/gain_matrix.cpp
index d6aa290..d827105 100644
--- a/src/libsignalflows/gain_matrix.cpp
+++ b/src/libsignalflows/gain_matrix.cpp
@@ -25,14 +25,14 @@ GainMatrix::GainMatrix( SignalFlowContext const & context,
  , mInput( "input", *this )
  , mOutput( "output", *this )
 {
-  mMatrix.setup( cNumberOfInputs, cNumberOfOutputs, cInterpolationSteps, initialMatrix );
+  mMatrix.setup( cNumberOfInputs, cNumberOfOutputs, cInterpolationSteps, initialMatrix, false/*controlInput*/ );
 #if 1
   mInput.setWidth( cNumberOfInputs );
   mOutput.setWidth( cNumberOfOutputs );
 
   audioConnection( "", "input", ChannelRange( 0, cNumberOfInputs ),
-                           "GainMatrix", "input", ChannelRange( 0, cNumberOfInputs ) );
-  audioConnection( "GainMatrix", "output", ChannelRange( 0, cNumberOfOutputs ),
+                           "GainMatrix", "in", ChannelRange( 0, cNumberOfInputs ) );
+  audioConnection( "GainMatrix", "out", ChannelRange( 0, cNumberOfOutputs ),
                            "", "output", ChannelRange( 0, cNumberOfOutputs ) );
 
 #else
-- 
2.43.0


From f88be0b0b4d1cb7d345dc8e7a1784f52977b0d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:35 +0000
Subject: [PATCH 097/139] fix: the DelayVector signal flow ignored its name

---
 src/libsignalflows/delay_vector.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libsignalflows/delay_vector.cpp b/src/libsignalflows/delay_vector.cpp
index 98f34c7..cd5bcfc 100644
--- a/src/libsignalflows/delay_vector.cpp
+++ b/src/libsignalflows/delay_vector.cpp
@@ -16,7 +16,7 @@ DelayVector::DelayVector( SignalFlowContext const & context,
                           std::size_t numberOfChannels,
                           std::size_t interpolationPeriod,
                           char const * interpolationMethod )
-  : CompositeComponent( context, "", parent )
+  : CompositeComponent( context, name, parent )
   , mDelay( context, "DelayVector", this )
   , mInput( "input", *this )
   , mOutput( "output", *this )
-- 
2.43.0


From b657931846b7188e70edf38dc08d2e8425cb135e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:11 +0000
Subject: [PATCH 098/139] fix: ArrayConfiguration could not be loaded twice,
 kept parts of rejected files and ignored malformed attributes

---
 src/libpml/array_configuration.cpp | 46 +++++++++++++++++++++---------
 1 file changed, 33 insertions(+), 13 deletions(-)

diff --git a/src/libpml/array_configuration.cpp b/src/libpml/array_configuration.cpp
index 1b6e2d2..3a522d3 100644
--- a/src/libpml/array_configuration.cpp
+++ b/src/libpml/array_configuration.cpp
@@ -17,6 +17,20 @@ namespace visr
 namespace pml
 {
 
+namespace // unnamed
+{
+
+/**
+ * Return an optional attribute of an XML node, but throw an exception if it is present and malformed.
+ */
+boost::optional<double> optionalAttribute( boost::property_tree::ptree const & node, std::string const & name )
+{
+  std::string const path = "<xmlattr>." + name;
+  return node.get_child_optional( path ) ? boost::optional<double>( node.get<double>( path ) ) : boost::optional<double>();
+}
+
+} // unnamed namespace
+
 ArrayConfiguration::ArrayConfiguration()
 {
 }
@@ -45,6 +59,10 @@ void ArrayConfiguration::loadXml( std::string const & filePath )
   boost::property_tree::read_xml( fileStream, parseTree );
 
   boost::property_tree::ptree treeRoot = parseTree.get_child( "arrayconfiguration" );
+  // Assign the content only after the complete file has been parsed successfully.
+  ArrayType newArray;
+  SubwooferList newSubwoofers;
+
   const auto speakerTrees = treeRoot.equal_range( "speaker" );
 
   for( ptree::const_assoc_iterator treeIt( speakerTrees.first ); treeIt != speakerTrees.second; ++treeIt )
@@ -52,17 +70,17 @@ void ArrayConfiguration::loadXml( std::string const & filePath )
     ptree const childTree = treeIt->second;
 
     std::size_t const id = childTree.get<std::size_t>( "<xmlattr>.id" );
-    boost::optional<double> const gainLinear = childTree.get_optional<double>( "<xmlattr>.gain" );
-    boost::optional<double> const gainDB = childTree.get_optional<double>( "<xmlattr>.gainDB" );
+    boost::optional<double> const gainLinear = optionalAttribute( childTree, "gain" );
+    boost::optional<double> const gainDB = optionalAttribute( childTree, "gainDB" );
     if( not (bool(gainLinear) xor bool(gainDB)) )
     {
       throw std::invalid_argument( "ArrayConfiguration::loadXml(): Each speaker node must contain exactly one \"gain\" or \"gainDB\" attribute." );
     }
     double const gain = bool( gainLinear ) ? *gainLinear : std::pow( 10.0, *gainDB / 20.0 );
-    boost::optional<double> const delay = childTree.get_optional<double>( "<xmlattr>.delay" );
+    boost::optional<double> const delay = optionalAttribute( childTree, "delay" );
 
     Speaker const newSpeaker( id, gain, delay ? *delay : 0.0 );
-    std::pair<ArrayType::iterator, bool> insertRes = mArray.insert( newSpeaker );
+    std::pair<ArrayType::iterator, bool> insertRes = newArray.insert( newSpeaker );
     if( !insertRes.second )
     {
       throw std::invalid_argument( "ArrayConfiguration::loadXml(): Duplicate speaker id." );
@@ -76,37 +94,39 @@ void ArrayConfiguration::loadXml( std::string const & filePath )
     ptree const childTree = treeIt->second;
 
     std::size_t const id = childTree.get<std::size_t>( "<xmlattr>.id" );
-    boost::optional<double> const gainLinear = childTree.get_optional<double>( "<xmlattr>.gain" );
-    boost::optional<double> const gainDB = childTree.get_optional<double>( "<xmlattr>.gainDB" );
+    boost::optional<double> const gainLinear = optionalAttribute( childTree, "gain" );
+    boost::optional<double> const gainDB = optionalAttribute( childTree, "gainDB" );
     if( not( bool( gainLinear ) xor bool( gainDB ) ) )
     {
       throw std::invalid_argument( "ArrayConfiguration::loadXml(): Each speaker node must contain exactly one \"gain\" or \"gainDB\" attribute." );
     }
     double const gain = bool( gainLinear ) ? *gainLinear : std::pow( 10.0, *gainDB / 20.0 );
-    boost::optional<double> const delay = childTree.get_optional<double>( "<xmlattr>.delay" );
+    boost::optional<double> const delay = optionalAttribute( childTree, "delay" );
 
     Speaker const newSpeaker( id, gain, delay ? *delay : 0.0 );
-    std::pair<ArrayType::iterator, bool> insertRes = mArray.insert( newSpeaker );
+    std::pair<ArrayType::iterator, bool> insertRes = newArray.insert( newSpeaker );
     if( !insertRes.second )
     {
       throw std::invalid_argument( "ArrayConfiguration::loadXml(): Duplicate speaker id." );
     }
-    mSubwoofers.push_back( id );
+    newSubwoofers.push_back( id );
   }
 
   // check whole array
-  if( !mArray.empty() ) // empty arrays are admissible, albeit of limited usefullness.
+  if( !newArray.empty() ) // empty arrays are admissible, albeit of limited usefullness.
   {
-    if( mArray.begin()->id != 1 )
+    if( newArray.begin()->id != 1 )
     {
       throw std::invalid_argument( "ArrayConfiguration::loadXml(): The lowest speaker id must be 1." );
     }
-    if( std::adjacent_find( mArray.begin(), mArray.end(),
-                            []( Speaker const & lhs, Speaker const & rhs ) { return lhs.id + 1 != rhs.id; } ) != mArray.end() )
+    if( std::adjacent_find( newArray.begin(), newArray.end(),
+                            []( Speaker const & lhs, Speaker const & rhs ) { return lhs.id + 1 != rhs.id; } ) != newArray.end() )
     {
       throw std::invalid_argument( "ArrayConfiguration::loadXml(): Speaker indices must be adjacent." );
     }
   }
+  mArray.swap( newArray );
+  mSubwoofers.swap( newSubwoofers );
 }
 
 } // namespace pml
-- 
2.43.0


From 9afc8c0cc675c703d73b451c37b1a654e044882e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:57 +0000
Subject: [PATCH 099/139] fix: elements of Python arrays were read from wrong
 positions if the strides are no multiples of the element size

---
 src/python/efl/basic_vector.cpp            | 2 +-
 src/python/rrl/audio_signal_flow.cpp       | 9 ++++++---
 src/python/rrl/flexible_buffer_wrapper.cpp | 9 ++++++---
 src/python/visr/audio_port.cpp             | 2 +-
 4 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/python/efl/basic_vector.cpp b/src/python/efl/basic_vector.cpp
index 4cbf0c3..3a7b848 100644
--- a/src/python/efl/basic_vector.cpp
+++ b/src/python/efl/basic_vector.cpp
@@ -23,7 +23,7 @@ namespace // unnamed
 {
 
 template<typename DataType>
-void setData( BasicVector<DataType> & param, py::array_t<DataType> & vec )
+void setData( BasicVector<DataType> & param, py::array_t<DataType, py::array::c_style | py::array::forcecast> & vec )
 {
   py::buffer_info info = vec.request();
   std::size_t const numElements = param.size();
diff --git a/src/python/rrl/audio_signal_flow.cpp b/src/python/rrl/audio_signal_flow.cpp
index 31d4b89..03f3da8 100644
--- a/src/python/rrl/audio_signal_flow.cpp
+++ b/src/python/rrl/audio_signal_flow.cpp
@@ -49,6 +49,9 @@ py::array_t<SampleType> wrapProcess( visr::rrl::AudioSignalFlow & flow, py::arra
     throw std::invalid_argument( "AudioSignalFlow::process(): Dimension 0 input of the input matrix does not match the block size of the signal flow." );
   }
 
+  // Obtain a contiguous array, because the strides of an arbitrary array might not be multiples of the sample size.
+  py::array const inputSignal = py::array_t<DataType, py::array::c_style>::ensure( input );
+
   py::array outputSignal( py::dtype::of<SampleType>(),
   { flow.numberOfPlaybackChannels(), flow.period() },
   { sizeof( SampleType )*flow.period(), sizeof( SampleType ) } // TODO: Take care of alignment
@@ -58,9 +61,9 @@ py::array_t<SampleType> wrapProcess( visr::rrl::AudioSignalFlow & flow, py::arra
 
   try
   {
-    flow.process( static_cast<SampleType const *>(input.data()),
-                  input.strides(0)/sizeof(SampleType),
-                  input.strides(1)/sizeof(SampleType),
+    flow.process( static_cast<SampleType const *>(inputSignal.data()),
+                  inputSignal.strides(0)/sizeof(SampleType),
+                  inputSignal.strides(1)/sizeof(SampleType),
                   static_cast<SampleType *>(outputSignal.mutable_data()),
                   outChannelStride,
                   outSampleStride );
diff --git a/src/python/rrl/flexible_buffer_wrapper.cpp b/src/python/rrl/flexible_buffer_wrapper.cpp
index a224c3b..e1d6823 100644
--- a/src/python/rrl/flexible_buffer_wrapper.cpp
+++ b/src/python/rrl/flexible_buffer_wrapper.cpp
@@ -60,6 +60,9 @@ py::array_t< SampleType > FlexibleBufferWrapper::process(
   }
   std::size_t const numFrames = static_cast< std::size_t >( input.shape( 1 ) );
 
+  // Obtain a contiguous array, because the strides of an arbitrary array might not be multiples of the sample size.
+  py::array const inputSignal = py::array_t< DataType, py::array::c_style >::ensure( input );
+
   py::array outputSignal(
       py::dtype::of< SampleType >(),
       { mFlow.numberOfPlaybackChannels(), numFrames },
@@ -74,9 +77,9 @@ py::array_t< SampleType > FlexibleBufferWrapper::process(
   try
   {
     visr::rrl::FlexibleBufferWrapper::process(
-        static_cast< SampleType const * >( input.data() ),
-        input.strides( 0 ) / sizeof( SampleType ),
-        input.strides( 1 ) / sizeof( SampleType ),
+        static_cast< SampleType const * >( inputSignal.data() ),
+        inputSignal.strides( 0 ) / sizeof( SampleType ),
+        inputSignal.strides( 1 ) / sizeof( SampleType ),
         static_cast< SampleType * >( outputSignal.mutable_data() ),
         outChannelStride, outSampleStride,
         numFrames );
diff --git a/src/python/visr/audio_port.cpp b/src/python/visr/audio_port.cpp
index d7cdf4e..21919cb 100644
--- a/src/python/visr/audio_port.cpp
+++ b/src/python/visr/audio_port.cpp
@@ -82,7 +82,7 @@ py::array_t<DataType> getOutputChannel( AudioOutputT<DataType> & port, std::size
 }
 
 template<typename DataType>
-void setOutputBuffer( AudioOutputT<DataType> & port, py::array_t<DataType> & matrix )
+void setOutputBuffer( AudioOutputT<DataType> & port, py::array_t<DataType, py::array::c_style | py::array::forcecast> & matrix )
 {
   py::buffer_info info = matrix.request();
   // TODO: check compatibility of matrices.
-- 
2.43.0


From dfd86800d8490031929e0d4ee0670049455c5b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:38 +0000
Subject: [PATCH 100/139] fix: Python audio ports included alignment padding in
 their arrays and rejected blocks of the actual period

---
 src/python/visr/audio_port.cpp | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/python/visr/audio_port.cpp b/src/python/visr/audio_port.cpp
index 21919cb..2be40f1 100644
--- a/src/python/visr/audio_port.cpp
+++ b/src/python/visr/audio_port.cpp
@@ -33,6 +33,15 @@ namespace py = pybind11;
 namespace // unnamed
 {
 
+/**
+ * Return the number of samples per channel of a port. In contrast to the channel stride, it does not contain the
+ * padding samples needed for alignment.
+ */
+std::size_t numberOfSamples( AudioPortBase const & port )
+{
+  return port.implementation().parent().period();
+}
+
 template<typename DataType>
 py::array_t<DataType> getInputBuffer( AudioInputT<DataType> & port )
 {
@@ -40,7 +49,7 @@ py::array_t<DataType> getInputBuffer( AudioInputT<DataType> & port )
     sizeof(DataType),
     py::format_descriptor<DataType>::format(),
     2 /* number of dimensions */,
-    { port.width(), port.channelStrideSamples() },
+    { port.width(), numberOfSamples( port ) },
     { sizeof( DataType ) * port.channelStrideSamples(), sizeof( DataType ) }
   );
   return py::array_t<DataType>( info );
@@ -53,7 +62,7 @@ py::array_t<DataType> getOutputBuffer( AudioOutputT<DataType> & port )
     sizeof( DataType ),
     py::format_descriptor<DataType>::format(),
     2 /* number of dimensions */,
-    { port.width(), port.channelStrideSamples() },
+    { port.width(), numberOfSamples( port ) },
     { sizeof( DataType ) * port.channelStrideSamples(), sizeof( DataType ) } ) );
 }
 
@@ -64,7 +73,7 @@ py::array_t<DataType> getInputChannel( AudioInputT<DataType> & port, std::size_t
     sizeof( DataType ),
     py::format_descriptor<DataType>::format(),
     1 /* number of dimensions */,
-    { port.channelStrideSamples() },
+    { numberOfSamples( port ) },
     { sizeof( DataType ) }
   );
   return py::array_t<DataType>( info );
@@ -77,7 +86,7 @@ py::array_t<DataType> getOutputChannel( AudioOutputT<DataType> & port, std::size
     sizeof( DataType ),
     py::format_descriptor<DataType>::format(),
     1 /* number of dimensions */,
-    { port.channelStrideSamples() },
+    { numberOfSamples( port ) },
     { sizeof( DataType ) } ) );
 }
 
@@ -87,7 +96,7 @@ void setOutputBuffer( AudioOutputT<DataType> & port, py::array_t<DataType, py::a
   py::buffer_info info = matrix.request();
   // TODO: check compatibility of matrices.
   std::size_t const numChannels = port.width();
-  std::size_t const bufferSize = port.channelStrideSamples();  // Should be blockSize
+  std::size_t const bufferSize = numberOfSamples( port );
   if( (info.ndim != 2) or (info.shape[0] != static_cast<py::ssize_t>(numChannels))
       or (info.shape[1] != static_cast<py::ssize_t>(bufferSize) ) )  {
     throw std::invalid_argument( "AudioOutputPort.set(): matrix shape does not match." );
@@ -121,7 +130,7 @@ void exportAudioInput( py::module & m, char const * name )
       sizeof( DataType ),
       py::format_descriptor<DataType>::format(),
       2 /* number of dimensions */,
-      { port.width(), port.channelStrideSamples() },
+      { port.width(), numberOfSamples( port ) },
       { sizeof( DataType ) * port.channelStrideSamples(), sizeof( DataType ) }
     );
   } )
@@ -144,7 +153,7 @@ void exportAudioOutput( py::module & m, char const * name )
       sizeof( DataType ),
       py::format_descriptor<DataType>::format(),
       2 /* number of dimensions */,
-      { port.width(), port.channelStrideSamples() },
+      { port.width(), numberOfSamples( port ) },
       { sizeof( DataType ) * port.channelStrideSamples(), sizeof( DataType ) }
     );
   } )
-- 
2.43.0


From 5f94352b57d4bc7021bc317835ab2884739cb558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:49 +0000
Subject: [PATCH 101/139] fix: FlexibleBufferWrapper::process aborted for
 signal flows without inputs or outputs in builds with assertions

---
 src/librrl/flexible_buffer_wrapper.cpp | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/librrl/flexible_buffer_wrapper.cpp b/src/librrl/flexible_buffer_wrapper.cpp
index 101b556..a0b7469 100644
--- a/src/librrl/flexible_buffer_wrapper.cpp
+++ b/src/librrl/flexible_buffer_wrapper.cpp
@@ -50,6 +50,18 @@ void copyBuffer( SampleType const * src,
   }
 }
 
+/**
+ * Return the read position of the first channel of a buffer.
+ * In case of a buffer without channels, a null pointer is returned.
+ */
+SampleType const * firstReadPointer(
+    rbbl::CircularBuffer< SampleType > const & buffer,
+    std::size_t delay )
+{
+  return buffer.numberOfChannels() == 0 ? nullptr
+                                        : buffer.getReadPointer( 0, delay );
+}
+
 } // unnamed namespace
 
 void FlexibleBufferWrapper::process( SampleType const * const * captureSamples,
@@ -84,8 +96,8 @@ void FlexibleBufferWrapper::process( SampleType const * const * captureSamples,
     if( newBufferLevel == cInternalPeriod )
     {
       assert( mInputBufferLevel == cInternalPeriod );
-      SampleType const * procInputPtr{ mInputBuffer.getReadPointer(
-          0, cInternalPeriod ) };
+      SampleType const * procInputPtr{ firstReadPointer(
+          mInputBuffer, cInternalPeriod ) };
       SampleType * procOutputPtr{ mOutputBuffer.getFirstWritePointer() };
       mFlow.process( procInputPtr, mInputBuffer.stride(), 1, procOutputPtr,
                      mOutputBuffer.stride(), 1 );
@@ -95,7 +107,7 @@ void FlexibleBufferWrapper::process( SampleType const * const * captureSamples,
     }
 
     SampleType const * readPtr =
-        mOutputBuffer.getReadPointer( 0, mOutputBufferLevel );
+        firstReadPointer( mOutputBuffer, mOutputBufferLevel );
     for( std::size_t chIdx{ 0 }; chIdx < numPlaybackChannels; ++chIdx )
     {
       copyBuffer( readPtr + chIdx * mOutputBuffer.stride(),
@@ -146,8 +158,8 @@ void FlexibleBufferWrapper::process( SampleType const * captureSamples,
     if( newBufferLevel == cInternalPeriod )
     {
       assert( mInputBufferLevel == cInternalPeriod );
-      SampleType const * procInputPtr{ mInputBuffer.getReadPointer(
-          0, cInternalPeriod ) };
+      SampleType const * procInputPtr{ firstReadPointer(
+          mInputBuffer, cInternalPeriod ) };
       SampleType * procOutputPtr{ mOutputBuffer.getFirstWritePointer() };
       mFlow.process( procInputPtr, mInputBuffer.stride(), 1, procOutputPtr,
                      mOutputBuffer.stride(), 1 );
@@ -157,7 +169,7 @@ void FlexibleBufferWrapper::process( SampleType const * captureSamples,
     }
 
     SampleType const * readPtr =
-        mOutputBuffer.getReadPointer( 0, mOutputBufferLevel );
+        firstReadPointer( mOutputBuffer, mOutputBufferLevel );
     SampleType * outputWritePtr =
         playbackSamples + processedFrames * playbackSampleStride;
     for( std::size_t chIdx{ 0 }; chIdx < numPlaybackChannels; ++chIdx )
-- 
2.43.0


From d8cf3bce39a3361943f929fb74223172f3db4752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:37 +0000
Subject: [PATCH 102/139] fix: properties of the convolvers, the component name
 separator and the invalid interpolant index could not be accessed from Python

---
 src/python/rbbl/core_convolver_uniform.cpp    | 24 +++++++++----------
 .../rbbl/crossfading_convolver_uniform.cpp    | 14 +++++------
 .../rbbl/interpolating_convolver_uniform.cpp  | 16 ++++++-------
 src/python/rbbl/interpolation_parameter.cpp   |  2 +-
 .../rbbl/multichannel_convolver_uniform.cpp   | 16 ++++++-------
 src/python/visr/component.cpp                 |  2 +-
 6 files changed, 37 insertions(+), 37 deletions(-)

diff --git a/src/python/rbbl/core_convolver_uniform.cpp b/src/python/rbbl/core_convolver_uniform.cpp
index 8b2029f..4d48202 100644
--- a/src/python/rbbl/core_convolver_uniform.cpp
+++ b/src/python/rbbl/core_convolver_uniform.cpp
@@ -31,19 +31,19 @@ void exportCoreConvolverUniform( pybind11::module & m, char const * name )
   pybind11::class_< CoreConvolverUniform<ElementType> >( m, name )
     .def( pybind11::init<std::size_t, std::size_t, std::size_t, std::size_t, std::size_t,
       efl::BasicMatrix<ElementType> const &, std::size_t, char const *>(),
-        pybind11::arg("numberOfInputs " ),
-        pybind11::arg( "numberOfOutputs " ),
-        pybind11::arg( "blockLength " ),
-        pybind11::arg( "maxFilterLength " ),
-        pybind11::arg( "maxFilterEntries " ),
+        pybind11::arg( "numberOfInputs" ),
+        pybind11::arg( "numberOfOutputs" ),
+        pybind11::arg( "blockLength" ),
+        pybind11::arg( "maxFilterLength" ),
+        pybind11::arg( "maxFilterEntries" ),
         pybind11::arg( "initialFilters" ),
-        pybind11::arg( "alignment " ) = 0,
-        pybind11::arg( "fftImplementation ") = "default" )
-    .def_property_readonly_static( "numberOfInputs", &CoreConvolverUniform<ElementType>::numberOfInputs )
-    .def_property_readonly_static( "numberOfOutputs", &CoreConvolverUniform<ElementType>::numberOfOutputs )
-    .def_property_readonly_static( "blockLength", &CoreConvolverUniform<ElementType>::blockLength )
-    .def_property_readonly_static( "maxNumberOfFilterEntries", &CoreConvolverUniform<ElementType>::maxNumberOfFilterEntries )
-    .def_property_readonly_static( "maxFilterLength", &CoreConvolverUniform<ElementType>::maxFilterLength )
+        pybind11::arg( "alignment" ) = 0,
+        pybind11::arg( "fftImplementation" ) = "default" )
+    .def_property_readonly( "numberOfInputs", &CoreConvolverUniform<ElementType>::numberOfInputs )
+    .def_property_readonly( "numberOfOutputs", &CoreConvolverUniform<ElementType>::numberOfOutputs )
+    .def_property_readonly( "blockLength", &CoreConvolverUniform<ElementType>::blockLength )
+    .def_property_readonly( "maxNumberOfFilterEntries", &CoreConvolverUniform<ElementType>::maxNumberOfFilterEntries )
+    .def_property_readonly( "maxFilterLength", &CoreConvolverUniform<ElementType>::maxFilterLength )
     .def( "clearFilters", &CoreConvolverUniform<ElementType>::clearFilters )
     .def( "initFilters", &CoreConvolverUniform<ElementType>::initFilters, pybind11::arg( "newFilters" ) )
     .def( "setImpulseResponse", &CoreConvolverUniform<ElementType>::setImpulseResponse,
diff --git a/src/python/rbbl/crossfading_convolver_uniform.cpp b/src/python/rbbl/crossfading_convolver_uniform.cpp
index 4615893..b98372d 100644
--- a/src/python/rbbl/crossfading_convolver_uniform.cpp
+++ b/src/python/rbbl/crossfading_convolver_uniform.cpp
@@ -88,13 +88,13 @@ void exportCrossfadingConvolverUniform( pybind11::module & m, char const * name
         pybind11::arg( "initialFilters" ),
         pybind11::arg( "alignment" ) = 0,
         pybind11::arg( "fftImplementation" ) = "default" )
-    .def_property_readonly_static( "numberOfInputs", &CrossfadingConvolverUniform<ElementType>::numberOfInputs )
-    .def_property_readonly_static( "numberOfOutputs", &CrossfadingConvolverUniform<ElementType>::numberOfOutputs )
-    .def_property_readonly_static( "blockLength", &CrossfadingConvolverUniform<ElementType>::blockLength )
-    .def_property_readonly_static( "maxNumberOfRoutingPoints", &CrossfadingConvolverUniform<ElementType>::maxNumberOfRoutingPoints )
-    .def_property_readonly_static( "maxNumberOfFilterEntries", &CrossfadingConvolverUniform<ElementType>::maxNumberOfFilterEntries )
-    .def_property_readonly_static( "maxFilterLength", &CrossfadingConvolverUniform<ElementType>::maxFilterLength )
-    .def_property_readonly_static( "numberOfRoutingPoints", &CrossfadingConvolverUniform<ElementType>::numberOfRoutingPoints )
+    .def_property_readonly( "numberOfInputs", &CrossfadingConvolverUniform<ElementType>::numberOfInputs )
+    .def_property_readonly( "numberOfOutputs", &CrossfadingConvolverUniform<ElementType>::numberOfOutputs )
+    .def_property_readonly( "blockLength", &CrossfadingConvolverUniform<ElementType>::blockLength )
+    .def_property_readonly( "maxNumberOfRoutingPoints", &CrossfadingConvolverUniform<ElementType>::maxNumberOfRoutingPoints )
+    .def_property_readonly( "maxNumberOfFilterEntries", &CrossfadingConvolverUniform<ElementType>::maxNumberOfFilterEntries )
+    .def_property_readonly( "maxFilterLength", &CrossfadingConvolverUniform<ElementType>::maxFilterLength )
+    .def_property_readonly( "numberOfRoutingPoints", &CrossfadingConvolverUniform<ElementType>::numberOfRoutingPoints )
     .def( "process", []( CrossfadingConvolverUniform<ElementType> & convolver, pybind11::array const & input )
        { return wrapProcess( convolver, input ); }, pybind11::arg("input") )
     .def( "clearRoutingTable", &CrossfadingConvolverUniform<ElementType>::clearRoutingTable )
diff --git a/src/python/rbbl/interpolating_convolver_uniform.cpp b/src/python/rbbl/interpolating_convolver_uniform.cpp
index 51c4a15..17b9d18 100644
--- a/src/python/rbbl/interpolating_convolver_uniform.cpp
+++ b/src/python/rbbl/interpolating_convolver_uniform.cpp
@@ -93,14 +93,14 @@ void exportInterpolatingConvolverUniform( pybind11::module & m, char const * nam
         pybind11::arg( "initialFilters" ) /*= pml::MatrixParameter<ElementType>()*/,
         pybind11::arg( "alignment" ) = 0,
         pybind11::arg( "fftImplementation") = "default" )
-    .def_property_readonly_static( "numberOfInputs", &InterpolatingConvolverUniform<ElementType>::numberOfInputs )
-    .def_property_readonly_static( "numberOfOutputs", &InterpolatingConvolverUniform<ElementType>::numberOfOutputs )
-    .def_property_readonly_static( "blockLength", &InterpolatingConvolverUniform<ElementType>::blockLength )
-    .def_property_readonly_static( "maxNumberOfRoutingPoints", &InterpolatingConvolverUniform<ElementType>::maxNumberOfRoutingPoints )
-    .def_property_readonly_static( "maxNumberOfFilterEntries", &InterpolatingConvolverUniform<ElementType>::maxNumberOfFilterEntries )
-    .def_property_readonly_static( "maxFilterLength", &InterpolatingConvolverUniform<ElementType>::maxFilterLength )
-    .def_property_readonly_static( "numberOfRoutingPoints", &InterpolatingConvolverUniform<ElementType>::numberOfRoutingPoints )
-    .def_property_readonly_static( "numberOfInterpolants", &InterpolatingConvolverUniform<ElementType>::numberOfInterpolants )
+    .def_property_readonly( "numberOfInputs", &InterpolatingConvolverUniform<ElementType>::numberOfInputs )
+    .def_property_readonly( "numberOfOutputs", &InterpolatingConvolverUniform<ElementType>::numberOfOutputs )
+    .def_property_readonly( "blockLength", &InterpolatingConvolverUniform<ElementType>::blockLength )
+    .def_property_readonly( "maxNumberOfRoutingPoints", &InterpolatingConvolverUniform<ElementType>::maxNumberOfRoutingPoints )
+    .def_property_readonly( "maxNumberOfFilterEntries", &InterpolatingConvolverUniform<ElementType>::maxNumberOfFilterEntries )
+    .def_property_readonly( "maxFilterLength", &InterpolatingConvolverUniform<ElementType>::maxFilterLength )
+    .def_property_readonly( "numberOfRoutingPoints", &InterpolatingConvolverUniform<ElementType>::numberOfRoutingPoints )
+    .def_property_readonly( "numberOfInterpolants", &InterpolatingConvolverUniform<ElementType>::numberOfInterpolants )
     .def( "process", []( InterpolatingConvolverUniform<ElementType> & convolver, pybind11::array const & input )
        { return wrapProcess( convolver, input ); }, pybind11::arg("input") )
     .def( "clearRoutingTable", &InterpolatingConvolverUniform<ElementType>::clearRoutingTable )
diff --git a/src/python/rbbl/interpolation_parameter.cpp b/src/python/rbbl/interpolation_parameter.cpp
index a2a8a3b..f987308 100644
--- a/src/python/rbbl/interpolation_parameter.cpp
+++ b/src/python/rbbl/interpolation_parameter.cpp
@@ -27,7 +27,7 @@ void exportInterpolationParameter( pybind11::module & m)
     .def( py::init<InterpolationParameter::IdType, std::size_t>(), py::arg("id"), py::arg( "numberOfInterpolants" ) )
     .def( py::init<InterpolationParameter::IdType, InterpolationParameter::IndexContainer const &, InterpolationParameter::WeightContainer const &>(),
       py::arg( "id" ), py::arg( "indices" ), py::arg( "weights" ) )
-    .def_property_readonly_static( "invalidIndex", []( InterpolationParameter const &){ return InterpolationParameter::cInvalidIndex; } )
+    .def_property_readonly_static( "invalidIndex", []( pybind11::object /*self*/ ){ return InterpolationParameter::cInvalidIndex; } )
     .def_property_readonly( "numberOfInterpolants", &InterpolationParameter::numberOfInterpolants )
     .def_property( "id", &InterpolationParameter::id, &InterpolationParameter::setId )
     .def( "index", &InterpolationParameter::index, py::arg("idx") )
diff --git a/src/python/rbbl/multichannel_convolver_uniform.cpp b/src/python/rbbl/multichannel_convolver_uniform.cpp
index ec7c241..38e85f8 100644
--- a/src/python/rbbl/multichannel_convolver_uniform.cpp
+++ b/src/python/rbbl/multichannel_convolver_uniform.cpp
@@ -88,14 +88,14 @@ void exportMultichannelConvolverUniform( pybind11::module & m, char const * name
         pybind11::arg( "initialFilters" ),
         pybind11::arg( "alignment" ) = 0,
         pybind11::arg( "fftImplementation" ) = "default" )
-    .def_property_readonly_static( "numberOfInputs", &MultichannelConvolverUniform<ElementType>::numberOfInputs )
-    .def_property_readonly_static( "numberOfOutputs", &MultichannelConvolverUniform<ElementType>::numberOfOutputs )
-    .def_property_readonly_static( "blockLength", &MultichannelConvolverUniform<ElementType>::blockLength )
-    .def_property_readonly_static( "maxNumberOfRoutingPoints", &MultichannelConvolverUniform<ElementType>::maxNumberOfRoutingPoints )
-    .def_property_readonly_static( "maxNumberOfFilterEntries", &MultichannelConvolverUniform<ElementType>::maxNumberOfFilterEntries )
-    .def_property_readonly_static( "maxFilterLength", &MultichannelConvolverUniform<ElementType>::maxFilterLength )
-    .def_property_readonly_static( "numberOfRoutingPoints", &MultichannelConvolverUniform<ElementType>::numberOfRoutingPoints )
-//    .def_property_readonly_static( "numberOfRoutings", &MultichannelConvolverUniform<ElementType>::numberOfRoutings )
+    .def_property_readonly( "numberOfInputs", &MultichannelConvolverUniform<ElementType>::numberOfInputs )
+    .def_property_readonly( "numberOfOutputs", &MultichannelConvolverUniform<ElementType>::numberOfOutputs )
+    .def_property_readonly( "blockLength", &MultichannelConvolverUniform<ElementType>::blockLength )
+    .def_property_readonly( "maxNumberOfRoutingPoints", &MultichannelConvolverUniform<ElementType>::maxNumberOfRoutingPoints )
+    .def_property_readonly( "maxNumberOfFilterEntries", &MultichannelConvolverUniform<ElementType>::maxNumberOfFilterEntries )
+    .def_property_readonly( "maxFilterLength", &MultichannelConvolverUniform<ElementType>::maxFilterLength )
+    .def_property_readonly( "numberOfRoutingPoints", &MultichannelConvolverUniform<ElementType>::numberOfRoutingPoints )
+//    .def_property_readonly( "numberOfRoutings", &MultichannelConvolverUniform<ElementType>::numberOfRoutings )
     .def( "process", []( MultichannelConvolverUniform<ElementType> & convolver, pybind11::array const & input ) 
        { return wrapProcess( convolver, input ); }, pybind11::arg("input") )
     .def( "clearRoutingTable", &MultichannelConvolverUniform<ElementType>::clearRoutingTable )
diff --git a/src/python/visr/component.cpp b/src/python/visr/component.cpp
index e57f634..b60ae60 100644
--- a/src/python/visr/component.cpp
+++ b/src/python/visr/component.cpp
@@ -61,7 +61,7 @@ void exportComponent( pybind11::module& m )
   pybind11::class_<Component>( m, "Component" ) 
     .def( pybind11::init<SignalFlowContext &, char const*, CompositeComponent *>(),
       pybind11::arg("context"), pybind11::arg("name"), pybind11::arg("parent") )
-    .def_property_readonly_static( "nameSeparator", &Component::nameSeparator )
+    .def_property_readonly_static( "nameSeparator", []( pybind11::object /*self*/ ) { return Component::nameSeparator(); } )
     .def_property_readonly( "name", &Component::name )
     .def_property_readonly( "fullName", &Component::fullName, pybind11::return_value_policy::reference )
     .def( "isComposite", &Component::isComposite )
-- 
2.43.0


From 920023e49e92f4d00d8e2756b716c507a91d65fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:37 +0000
Subject: [PATCH 103/139] fix: setImpulseResponse of the Python convolvers took
 a scalar and read beyond it

---
 src/python/rbbl/core_convolver_uniform.cpp          | 12 +++++++++++-
 src/python/rbbl/crossfading_convolver_uniform.cpp   | 12 +++++++++++-
 src/python/rbbl/interpolating_convolver_uniform.cpp | 12 +++++++++++-
 src/python/rbbl/multichannel_convolver_uniform.cpp  | 12 +++++++++++-
 4 files changed, 44 insertions(+), 4 deletions(-)

diff --git a/src/python/rbbl/core_convolver_uniform.cpp b/src/python/rbbl/core_convolver_uniform.cpp
index 4d48202..778e74f 100644
--- a/src/python/rbbl/core_convolver_uniform.cpp
+++ b/src/python/rbbl/core_convolver_uniform.cpp
@@ -46,7 +46,17 @@ void exportCoreConvolverUniform( pybind11::module & m, char const * name )
     .def_property_readonly( "maxFilterLength", &CoreConvolverUniform<ElementType>::maxFilterLength )
     .def( "clearFilters", &CoreConvolverUniform<ElementType>::clearFilters )
     .def( "initFilters", &CoreConvolverUniform<ElementType>::initFilters, pybind11::arg( "newFilters" ) )
-    .def( "setImpulseResponse", &CoreConvolverUniform<ElementType>::setImpulseResponse,
+    .def( "setImpulseResponse", []( CoreConvolverUniform<ElementType> & convolver,
+          pybind11::array_t<ElementType, pybind11::array::c_style | pybind11::array::forcecast> const & ir,
+          std::size_t filterLength, std::size_t filterIdx, std::size_t /*alignment*/ )
+      {
+        if( (ir.ndim() != 1) or (filterLength > static_cast<std::size_t>(ir.size())) )
+        {
+          throw std::invalid_argument( "CoreConvolverUniform::setImpulseResponse(): The impulse response must be a vector of at least \"filterLength\" elements." );
+        }
+        // No assumptions are made about the alignment of the array.
+        convolver.setImpulseResponse( ir.data(), filterLength, filterIdx, 0 /*alignment*/ );
+      },
       pybind11::arg("ir"), pybind11::arg( "filterLength"), pybind11::arg( "filterIdx" ), pybind11::arg( "alignment" ) = 0 )
   ;
 }
diff --git a/src/python/rbbl/crossfading_convolver_uniform.cpp b/src/python/rbbl/crossfading_convolver_uniform.cpp
index b98372d..19506da 100644
--- a/src/python/rbbl/crossfading_convolver_uniform.cpp
+++ b/src/python/rbbl/crossfading_convolver_uniform.cpp
@@ -107,7 +107,17 @@ void exportCrossfadingConvolverUniform( pybind11::module & m, char const * name
         pybind11::arg( "inputIndex" ), pybind11::arg( "outputIndex" ) )
     .def( "clearFilters", &CrossfadingConvolverUniform<ElementType>::clearFilters )
     .def( "initFilters", &CrossfadingConvolverUniform<ElementType>::initFilters, pybind11::arg( "newFilters" ) )
-    .def( "setImpulseResponse", &CrossfadingConvolverUniform<ElementType>::setImpulseResponse,
+    .def( "setImpulseResponse", []( CrossfadingConvolverUniform<ElementType> & convolver,
+          pybind11::array_t<ElementType, pybind11::array::c_style | pybind11::array::forcecast> const & ir,
+          std::size_t filterLength, std::size_t filterIdx, bool startTransition, std::size_t /*alignment*/ )
+      {
+        if( (ir.ndim() != 1) or (filterLength > static_cast<std::size_t>(ir.size())) )
+        {
+          throw std::invalid_argument( "CrossfadingConvolverUniform::setImpulseResponse(): The impulse response must be a vector of at least \"filterLength\" elements." );
+        }
+        // No assumptions are made about the alignment of the array.
+        convolver.setImpulseResponse( ir.data(), filterLength, filterIdx, startTransition, 0 /*alignment*/ );
+      },
       pybind11::arg("ir"), pybind11::arg( "filterLength"), pybind11::arg( "filterIdx" ),
       pybind11::arg( "startTransition" ), pybind11::arg( "alignment" ) = 0 )
   ;
diff --git a/src/python/rbbl/interpolating_convolver_uniform.cpp b/src/python/rbbl/interpolating_convolver_uniform.cpp
index 17b9d18..6c4f4bb 100644
--- a/src/python/rbbl/interpolating_convolver_uniform.cpp
+++ b/src/python/rbbl/interpolating_convolver_uniform.cpp
@@ -113,7 +113,17 @@ void exportInterpolatingConvolverUniform( pybind11::module & m, char const * nam
         pybind11::arg( "inputIndex" ), pybind11::arg( "outputIndex" ) )
     .def( "clearFilters", &InterpolatingConvolverUniform<ElementType>::clearFilters )
     .def( "initFilters", &InterpolatingConvolverUniform<ElementType>::initFilters, pybind11::arg( "newFilters" ) )
-    .def( "setImpulseResponse", &InterpolatingConvolverUniform<ElementType>::setImpulseResponse,
+    .def( "setImpulseResponse", []( InterpolatingConvolverUniform<ElementType> & convolver,
+          pybind11::array_t<ElementType, pybind11::array::c_style | pybind11::array::forcecast> const & ir,
+          std::size_t filterLength, std::size_t filterIdx, std::size_t /*alignment*/ )
+      {
+        if( (ir.ndim() != 1) or (filterLength > static_cast<std::size_t>(ir.size())) )
+        {
+          throw std::invalid_argument( "InterpolatingConvolverUniform::setImpulseResponse(): The impulse response must be a vector of at least \"filterLength\" elements." );
+        }
+        // No assumptions are made about the alignment of the array.
+        convolver.setImpulseResponse( ir.data(), filterLength, filterIdx, 0 /*alignment*/ );
+      },
       pybind11::arg("ir"), pybind11::arg( "filterLength"), pybind11::arg( "filterIdx" ),
       pybind11::arg( "alignment" ) = 0 )
     .def( "setInterpolant", &InterpolatingConvolverUniform<ElementType>::setInterpolant, pybind11::arg( "interpolant" ), pybind11::arg( "startTransition" ) )
diff --git a/src/python/rbbl/multichannel_convolver_uniform.cpp b/src/python/rbbl/multichannel_convolver_uniform.cpp
index 38e85f8..60a6b23 100644
--- a/src/python/rbbl/multichannel_convolver_uniform.cpp
+++ b/src/python/rbbl/multichannel_convolver_uniform.cpp
@@ -108,7 +108,17 @@ void exportMultichannelConvolverUniform( pybind11::module & m, char const * name
         pybind11::arg( "inputIndex" ), pybind11::arg( "outputIndex" ) )
     .def( "clearFilters", &MultichannelConvolverUniform<ElementType>::clearFilters )
     .def( "initFilters", &MultichannelConvolverUniform<ElementType>::initFilters, pybind11::arg( "newFilters" ) )
-    .def( "setImpulseResponse", &MultichannelConvolverUniform<ElementType>::setImpulseResponse,
+    .def( "setImpulseResponse", []( MultichannelConvolverUniform<ElementType> & convolver,
+          pybind11::array_t<ElementType, pybind11::array::c_style | pybind11::array::forcecast> const & ir,
+          std::size_t filterLength, std::size_t filterIdx, std::size_t /*alignment*/ )
+      {
+        if( (ir.ndim() != 1) or (filterLength > static_cast<std::size_t>(ir.size())) )
+        {
+          throw std::invalid_argument( "MultichannelConvolverUniform::setImpulseResponse(): The impulse response must be a vector of at least \"filterLength\" elements." );
+        }
+        // No assumptions are made about the alignment of the array.
+        convolver.setImpulseResponse( ir.data(), filterLength, filterIdx, 0 /*alignment*/ );
+      },
       pybind11::arg("ir"), pybind11::arg( "filterLength"), pybind11::arg( "filterIdx" ), pybind11::arg( "alignment" ) = 0 )
   ;
 }
-- 
2.43.0


From a316344e8a6a4f47ec3820052f3a84148f793282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:37 +0000
Subject: [PATCH 104/139] fix: Python convolvers read wrong samples if the row
 stride is no multiple of the element size

---
 src/python/rbbl/crossfading_convolver_uniform.cpp   | 2 +-
 src/python/rbbl/interpolating_convolver_uniform.cpp | 2 +-
 src/python/rbbl/multichannel_convolver_uniform.cpp  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/python/rbbl/crossfading_convolver_uniform.cpp b/src/python/rbbl/crossfading_convolver_uniform.cpp
index 19506da..9e8e304 100644
--- a/src/python/rbbl/crossfading_convolver_uniform.cpp
+++ b/src/python/rbbl/crossfading_convolver_uniform.cpp
@@ -40,7 +40,7 @@ pybind11::array_t<DataType> wrapProcess( CrossfadingConvolverUniform<DataType> &
   {
     throw std::invalid_argument( "CrossfadingConvolverUniform::process(): Dimension 0 input of the input matrix does not match the block size of the convolver." );
   }
-  if( input.strides(1) != sizeof(DataType) )
+  if( (input.strides(1) != sizeof(DataType)) or (input.strides(0) % static_cast<pybind11::ssize_t>(sizeof(DataType)) != 0) )
   {
     throw std::invalid_argument( "CrossfadingConvolverUniform::process(): The channel data must be consecutive." );
   }
diff --git a/src/python/rbbl/interpolating_convolver_uniform.cpp b/src/python/rbbl/interpolating_convolver_uniform.cpp
index 6c4f4bb..2bf6579 100644
--- a/src/python/rbbl/interpolating_convolver_uniform.cpp
+++ b/src/python/rbbl/interpolating_convolver_uniform.cpp
@@ -42,7 +42,7 @@ pybind11::array_t<DataType> wrapProcess( InterpolatingConvolverUniform<DataType>
   {
     throw std::invalid_argument( "InterpolatingConvolverUniform::process(): Dimension 0 input of the input matrix does not match the block size of the convolver." );
   }
-  if( input.strides(1) != sizeof(DataType) )
+  if( (input.strides(1) != sizeof(DataType)) or (input.strides(0) % static_cast<pybind11::ssize_t>(sizeof(DataType)) != 0) )
   {
     throw std::invalid_argument( "InterpolatingConvolverUniform::process(): The channel data must be consecutive." );
   }
diff --git a/src/python/rbbl/multichannel_convolver_uniform.cpp b/src/python/rbbl/multichannel_convolver_uniform.cpp
index 60a6b23..844bbca 100644
--- a/src/python/rbbl/multichannel_convolver_uniform.cpp
+++ b/src/python/rbbl/multichannel_convolver_uniform.cpp
@@ -41,7 +41,7 @@ pybind11::array_t<DataType> wrapProcess( MultichannelConvolverUniform<DataType>
   {
     throw std::invalid_argument( "MultichannelConvolverUniform::process(): Dimension 0 input of the input matrix does not match the block size of the convolver." );
   }
-  if( input.strides(1) != sizeof(DataType) )
+  if( (input.strides(1) != sizeof(DataType)) or (input.strides(0) % static_cast<pybind11::ssize_t>(sizeof(DataType)) != 0) )
   {
     throw std::invalid_argument( "MultichannelConvolverUniform::process(): The channel data must be consecutive." );
   }
-- 
2.43.0


From deedda55b0d42de9297ac36fbe2cbaeae6c52b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:30 +0000
Subject: [PATCH 105/139] fix: efl vector functions silently discarded results
 if the data type of the Python output array differs

---
 src/python/efl/filter_functions.cpp   |  2 +-
 src/python/efl/vector_conversions.cpp |  8 ++---
 src/python/efl/vector_functions.cpp   | 44 +++++++++++++--------------
 3 files changed, 27 insertions(+), 27 deletions(-)

diff --git a/src/python/efl/filter_functions.cpp b/src/python/efl/filter_functions.cpp
index b861372..a0b8a1a 100644
--- a/src/python/efl/filter_functions.cpp
+++ b/src/python/efl/filter_functions.cpp
@@ -48,7 +48,7 @@ void export_iirFilterBiquadsSingleChannel( py::module & m )
        coeffStride * numSections, "coeffs" );
      checkError( visr::efl::iirFilterBiquadsSingleChannel<T>( inputPtr, outputPtr, statesPtr,
          coeffsPtr, numElements, numSections, stateStride, coeffStride, alignment ) );
-	 }, py::arg("input"), py::arg("output"), py::arg("states"), py::arg("coeffs"),
+	 }, py::arg("input"), py::arg("output").noconvert(), py::arg("states").noconvert(), py::arg("coeffs"),
     py::arg("numElements"), py::arg( "numSections" ),
     py::arg("stateStride") = 2, py::arg("coeffStride") = 0,
     py::arg("alignment")=0 );
diff --git a/src/python/efl/vector_conversions.cpp b/src/python/efl/vector_conversions.cpp
index 470e7ef..ded7da3 100644
--- a/src/python/efl/vector_conversions.cpp
+++ b/src/python/efl/vector_conversions.cpp
@@ -41,7 +41,7 @@ void exportVectorConvert( py::module & m )
      InputType const * const srcPtr = visr::python::bindinghelpers::ContainerAccess<Container, InputType >::constantPointer( src, numElements, "src" );
      OutputType * const destPtr = visr::python::bindinghelpers::ContainerAccess<Container, OutputType >::mutablePointer( dest, numElements, "dest" );
      detail::checkError( efl::vectorConvert<InputType, OutputType>( srcPtr, destPtr, numElements, alignment ) );
-   }, py::arg( "src" ), py::arg("dest"), py::arg("numElements"), py::arg("alignment")=0 );
+   }, py::arg( "src" ), py::arg("dest").noconvert(), py::arg("numElements"), py::arg("alignment")=0 );
 }
 
 // template< typename InputType, typename OutputType >
@@ -63,7 +63,7 @@ void exportVectorConvertInputStride( py::module & m )
      detail::checkError( efl::vectorConvertInputStride<InputType,
        OutputType>( srcPtr, destPtr, numElements, inputStride,
        alignment ) );
-   }, py::arg( "src" ), py::arg("dest"), py::arg("numElements"),
+   }, py::arg( "src" ), py::arg("dest").noconvert(), py::arg("numElements"),
    py::arg("inputStride"), py::arg("alignment")=0 );
 }
 
@@ -86,7 +86,7 @@ void exportVectorConvertOutputStride( py::module & m )
      detail::checkError( efl::vectorConvertOutputStride<InputType,
        OutputType>( srcPtr, destPtr, numElements, outputStride,
        alignment ) );
-   }, py::arg( "src" ), py::arg("dest"), py::arg("numElements"),
+   }, py::arg( "src" ), py::arg("dest").noconvert(), py::arg("numElements"),
    py::arg("outputStride"), py::arg("alignment")=0 );
 }
 
@@ -110,7 +110,7 @@ void exportVectorConvertInputOutputStride( py::module & m )
      detail::checkError( efl::vectorConvertInputOutputStride<InputType,
        OutputType>( srcPtr, destPtr, numElements, inputStride, outputStride,
        alignment ) );
-   }, py::arg( "src" ), py::arg("dest"), py::arg("numElements"),
+   }, py::arg( "src" ), py::arg("dest").noconvert(), py::arg("numElements"),
    py::arg( "inputStride" ), py::arg("outputStride"), py::arg("alignment")=0 );
 }
 
diff --git a/src/python/efl/vector_functions.cpp b/src/python/efl/vector_functions.cpp
index 0722566..863e62d 100644
--- a/src/python/efl/vector_functions.cpp
+++ b/src/python/efl/vector_functions.cpp
@@ -34,7 +34,7 @@ void exportVectorZero( py::module & m )
 	 {
 	   T * const destPtr = visr::python::bindinghelpers::ContainerAccess<Container, T >::mutablePointer( dest, numElements, "dest" );
 	   detail::checkError( visr::efl::vectorZero<T>( destPtr, numElements, alignment ) );
-	 }, py::arg("dest"), py::arg("numElements"), py::arg("alignment")=0 );
+	 }, py::arg("dest").noconvert(), py::arg("numElements"), py::arg("alignment")=0 );
 }
 
 template< template<typename> class Container, typename T >
@@ -45,7 +45,7 @@ void exportVectorFill( py::module & m )
 	 {
 	   T * const destPtr = visr::python::bindinghelpers::ContainerAccess<Container, T >::mutablePointer( dest, numElements, "dest" );
 	   detail::checkError( visr::efl::vectorFill<T>( value, destPtr, numElements, alignment ) );
-	 }, py::arg("value"), py::arg("dest"), py::arg("numElements"), py::arg("alignment")=0 );
+	 }, py::arg("value"), py::arg("dest").noconvert(), py::arg("numElements"), py::arg("alignment")=0 );
 }
 
 template< template<typename> class Container, typename T >
@@ -57,7 +57,7 @@ void exportVectorCopy( py::module & m )
 	   T const * const srcPtr = visr::python::bindinghelpers::ContainerAccess<Container, T >::constantPointer( src, numElements, "src" );
 	   T * const destPtr = visr::python::bindinghelpers::ContainerAccess<Container, T >::mutablePointer( dest, numElements, "dest" );
 	   detail::checkError( visr::efl::vectorCopy<T>( srcPtr, destPtr, numElements, alignment ) );
-	 }, py::arg("src"), py::arg("dest"), py::arg("numElements"), py::arg("alignment")=0 );
+	 }, py::arg("src"), py::arg("dest").noconvert(), py::arg("numElements"), py::arg("alignment")=0 );
 }
 
 template< template<typename> class Container, typename T >
@@ -71,7 +71,7 @@ void exportVectorCopyStrided( py::module & m )
 	   T * const destPtr = visr::python::bindinghelpers::ContainerAccess<Container, T >::mutablePointer( dest, numElements*destStrideSamples, "dest" );
 	   detail::checkError( visr::efl::vectorCopyStrided<T>( srcPtr, destPtr, sourceStrideSamples,
                                                           destStrideSamples, numElements, alignment ) );
-	 }, py::arg("src"), py::arg("dest"), py::arg( "srcStride")=1, py::arg( "destStride")=1, py::arg("numElements"), py::arg("alignment")=0 );
+	 }, py::arg("src"), py::arg("dest").noconvert(), py::arg( "srcStride")=1, py::arg( "destStride")=1, py::arg("numElements"), py::arg("alignment")=0 );
 }
 
 template< template<typename> class Container, typename T >
@@ -84,7 +84,7 @@ void exportVectorRamp( py::module & m )
 	   T * const destPtr = visr::python::bindinghelpers::ContainerAccess<Container, T >::mutablePointer( dest, numElements, "dest" );
 	   detail::checkError( visr::efl::vectorRamp<T>( destPtr, numElements,
 						 startVal, endVal, startInclusive, endInclusive, alignment ) );
-	 }, py::arg("dest"), py::arg("numElements"), py::arg("startVal"), py::arg("endVal"),
+	 }, py::arg("dest").noconvert(), py::arg("numElements"), py::arg("startVal"), py::arg("endVal"),
 	    py::arg("startInclusive")=true, py::arg("endInclusive")=true, py::arg("alignment")=0 );
 }
 
@@ -99,7 +99,7 @@ void exportVectorAdd( py::module & m )
 	   T const * const op2Ptr = visr::python::bindinghelpers::ContainerAccess<Container, T >::constantPointer( op2, numElements, "op2" );
 	   T * const resultPtr = visr::python::bindinghelpers::ContainerAccess<Container, T >::mutablePointer( result, numElements, "result" );
 	   detail::checkError( visr::efl::vectorAdd<T>( op1Ptr, op2Ptr, resultPtr, numElements, alignment ) );
-	 }, py::arg("op1"), py::arg("op2"), py::arg("result"), py::arg("numElements"), py::arg("alignment")=0 );
+	 }, py::arg("op1"), py::arg("op2"), py::arg("result").noconvert(), py::arg("numElements"), py::arg("alignment")=0 );
 }
 
 //template<typename T>
@@ -117,7 +117,7 @@ void exportVectorAddInplace(py::module & m)
     T const * const addend1Ptr = visr::python::bindinghelpers::ContainerAccess<Container, T >::constantPointer(addend1, numElements, "addend1");
     T * const addend2ResultPtr = visr::python::bindinghelpers::ContainerAccess<Container, T >::mutablePointer(addend2Result, numElements, "addend2Result");
     detail::checkError(visr::efl::vectorAddInplace<T>(addend1Ptr, addend2ResultPtr, numElements, alignment));
-  }, py::arg("addend1"), py::arg("addend2Result"), py::arg("numElements"), py::arg("alignment") = 0);
+  }, py::arg("addend1"), py::arg("addend2Result").noconvert(), py::arg("numElements"), py::arg("alignment") = 0);
 }
 
 //template<typename T>
@@ -136,7 +136,7 @@ void exportVectorAddConstant(py::module & m)
     T const * const addendPtr = visr::python::bindinghelpers::ContainerAccess<Container, T >::constantPointer(addend, numElements, "addend");
     T * const resultPtr = visr::python::bindinghelpers::ContainerAccess<Container, T >::mutablePointer(result, numElements, "result");
     detail::checkError(visr::efl::vectorAddConstant<T>(constantValue, addendPtr, resultPtr, numElements, alignment));
-  }, py::arg("constantValue"), py::arg("addend"), py::arg("result"), py::arg("numElements"), py::arg("alignment") = 0);
+  }, py::arg("constantValue"), py::arg("addend"), py::arg("result").noconvert(), py::arg("numElements"), py::arg("alignment") = 0);
 }
 
 //template<typename T>
@@ -153,7 +153,7 @@ void exportVectorAddConstantInplace(py::module & m)
   {
     T * const addendResultPtr = visr::python::bindinghelpers::ContainerAccess<Container, T >::mutablePointer(addendResult, numElements, "addendResult");
     detail::checkError(visr::efl::vectorAddConstantInplace<T>(constantValue, addendResultPtr, numElements, alignment));
-  }, py::arg("constantValue"), py::arg("addendResult"), py::arg("numElements"), py::arg("alignment") = 0);
+  }, py::arg("constantValue"), py::arg("addendResult").noconvert(), py::arg("numElements"), py::arg("alignment") = 0);
 }
 
 //template<typename T>
@@ -173,7 +173,7 @@ void exportVectorSubtract(py::module & m)
     T const * const minuendPtr = visr::python::bindinghelpers::ContainerAccess<Container, T >::constantPointer(minuend, numElements, "op2");
     T * const resultPtr = visr::python::bindinghelpers::ContainerAccess<Container, T >::mutablePointer(result, numElements, "result");
     detail::checkError(visr::efl::vectorSubtract<T>(subtrahendPtr, minuendPtr, resultPtr, numElements, alignment));
-  }, py::arg("subtrahend"), py::arg("minuend"), py::arg("result"), py::arg("numElements"), py::arg("alignment") = 0);
+  }, py::arg("subtrahend"), py::arg("minuend"), py::arg("result").noconvert(), py::arg("numElements"), py::arg("alignment") = 0);
 }
 
 //template<typename T>
@@ -191,7 +191,7 @@ void exportVectorSubtractInplace(py::module & m)
     T const * const minuendPtr = visr::python::bindinghelpers::ContainerAccess<Container, T >::constantPointer(minuend, numElements, "addend1");
     T * const subtrahendResultPtr = visr::python::bindinghelpers::ContainerAccess<Container, T >::mutablePointer(subtrahendResult, numElements, "addend2Result");
     detail::checkError(visr::efl::vectorSubtractInplace<T>(minuendPtr, subtrahendResultPtr, numElements, alignment));
-  }, py::arg("minuend"), py::arg("subtrahendResult"), py::arg("numElements"), py::arg("alignment") = 0);
+  }, py::arg("minuend"), py::arg("subtrahendResult").noconvert(), py::arg("numElements"), py::arg("alignment") = 0);
 }
 
 //template<typename T>
@@ -210,7 +210,7 @@ void exportVectorSubtractConstant(py::module & m)
     T const * const subtrahendPtr = visr::python::bindinghelpers::ContainerAccess<Container, T >::constantPointer(subtrahend, numElements, "subtrahend");
     T * const resultPtr = visr::python::bindinghelpers::ContainerAccess<Container, T >::mutablePointer(result, numElements, "result");
     detail::checkError(visr::efl::vectorSubtractConstant<T>(constantMinuend, subtrahendPtr, resultPtr, numElements, alignment));
-  }, py::arg("constantMinuend"), py::arg("subtrahend"), py::arg("result"), py::arg("numElements"), py::arg("alignment") = 0);
+  }, py::arg("constantMinuend"), py::arg("subtrahend"), py::arg("result").noconvert(), py::arg("numElements"), py::arg("alignment") = 0);
 }
 
 //template<typename T>
@@ -227,7 +227,7 @@ void exportVectorSubtractConstantInplace(py::module & m)
   {
     T * const subtrahendResultPtr = visr::python::bindinghelpers::ContainerAccess<Container, T >::mutablePointer(subtrahendResult, numElements, "subtrahendResult");
     detail::checkError(visr::efl::vectorSubtractConstantInplace<T>(constantMinuend, subtrahendResultPtr, numElements, alignment));
-  }, py::arg("constantMinuend"), py::arg("subtrahendResult"), py::arg("numElements"), py::arg("alignment") = 0);
+  }, py::arg("constantMinuend"), py::arg("subtrahendResult").noconvert(), py::arg("numElements"), py::arg("alignment") = 0);
 }
 
 template< template<typename> class Container, typename T >
@@ -241,7 +241,7 @@ void exportVectorMultiply( py::module & m )
 	   T const * const op2Ptr = visr::python::bindinghelpers::ContainerAccess<Container, T >::constantPointer( op2, numElements, "op2" );
 	   T * const resultPtr = visr::python::bindinghelpers::ContainerAccess<Container, T >::mutablePointer( result, numElements, "result" );
 	   detail::checkError( visr::efl::vectorMultiply<T>( op1Ptr, op2Ptr, resultPtr, numElements, alignment ) );
-	 }, py::arg("factor1"), py::arg("factor2"), py::arg("result"), py::arg("numElements"), py::arg("alignment")=0 );
+	 }, py::arg("factor1"), py::arg("factor2"), py::arg("result").noconvert(), py::arg("numElements"), py::arg("alignment")=0 );
 }
 
 // template<typename T>
@@ -259,7 +259,7 @@ void exportVectorMultiplyInplace( py::module & m )
              T const * const factor1Ptr = visr::python::bindinghelpers::ContainerAccess<Container, T >::constantPointer( factor1, numElements, "factor1" );
              T * const factor2ResultPtr = visr::python::bindinghelpers::ContainerAccess<Container, T >::mutablePointer( factor2Result, numElements, "factor2Result" );
              detail::checkError( visr::efl::vectorMultiplyInplace<T>( factor1Ptr, factor2ResultPtr, numElements, alignment ) );
-           }, py::arg("factor1"), py::arg("factor2Result"), py::arg("numElements"), py::arg("alignment")=0 );
+           }, py::arg("factor1"), py::arg("factor2Result").noconvert(), py::arg("numElements"), py::arg("alignment")=0 );
 }
 
 // template<typename T>
@@ -278,7 +278,7 @@ void exportVectorMultiplyConstant(py::module & m)
     T const * const factorPtr = visr::python::bindinghelpers::ContainerAccess<Container, T >::constantPointer(factor, numElements, "factor");
     T * const resultPtr = visr::python::bindinghelpers::ContainerAccess<Container, T >::mutablePointer(result, numElements, "result");
     detail::checkError(visr::efl::vectorMultiplyConstant<T>(constantValue, factorPtr, resultPtr, numElements, alignment));
-  }, py::arg("constantValue"), py::arg("factor"), py::arg("result"), py::arg("numElements"), py::arg("alignment") = 0);
+  }, py::arg("constantValue"), py::arg("factor"), py::arg("result").noconvert(), py::arg("numElements"), py::arg("alignment") = 0);
 }
 
 // template<typename T>
@@ -295,7 +295,7 @@ void exportVectorMultiplyConstantInplace(py::module & m)
   {
     T * const factorResultPtr = visr::python::bindinghelpers::ContainerAccess<Container, T >::mutablePointer(factorResult, numElements, "factorResult");
     detail::checkError(visr::efl::vectorMultiplyConstantInplace<T>( constantValue, factorResultPtr, numElements, alignment));
-  }, py::arg("constantValue"), py::arg("factorResult"), py::arg("numElements"), py::arg("alignment") = 0);
+  }, py::arg("constantValue"), py::arg("factorResult").noconvert(), py::arg("numElements"), py::arg("alignment") = 0);
 }
 
 // template<typename T>
@@ -318,7 +318,7 @@ void exportVectorMultiplyAdd(py::module & m)
     T const * const addendPtr = visr::python::bindinghelpers::ContainerAccess<Container, T >::constantPointer(addend, numElements, "addend");
     T * const resultPtr = visr::python::bindinghelpers::ContainerAccess<Container, T >::mutablePointer(result, numElements, "");
     detail::checkError(visr::efl::vectorMultiplyAdd<T>(factor1Ptr, factor2Ptr, addendPtr, resultPtr, numElements, alignment));
-  }, py::arg("factor1"), py::arg("factor2"), py::arg("addend"), py::arg("result"), py::arg("numElements"), py::arg("alignment") = 0);
+  }, py::arg("factor1"), py::arg("factor2"), py::arg("addend"), py::arg("result").noconvert(), py::arg("numElements"), py::arg("alignment") = 0);
 }
 
 // template<typename T>
@@ -339,7 +339,7 @@ void exportVectorMultiplyAddInplace(py::module & m)
     T const * const factor2Ptr = visr::python::bindinghelpers::ContainerAccess<Container, T >::constantPointer(factor2, numElements, "factor2");
     T * const accumulatorPtr = visr::python::bindinghelpers::ContainerAccess<Container, T >::mutablePointer(accumulator, numElements, "accumulator");
     detail::checkError(visr::efl::vectorMultiplyAddInplace<T>(factor1Ptr, factor2Ptr, accumulatorPtr, numElements, alignment));
-  }, py::arg("factor1"), py::arg("factor2"), py::arg("accumulator"), py::arg("numElements"), py::arg("alignment") = 0);
+  }, py::arg("factor1"), py::arg("factor2"), py::arg("accumulator").noconvert(), py::arg("numElements"), py::arg("alignment") = 0);
 }
 
 // template<typename T>
@@ -360,7 +360,7 @@ void exportVectorMultiplyConstantAdd(py::module & m)
     T const * const addendPtr = visr::python::bindinghelpers::ContainerAccess<Container, T >::constantPointer(addend, numElements, "addend");
     T * const resultPtr = visr::python::bindinghelpers::ContainerAccess<Container, T >::mutablePointer(result, numElements, "");
     detail::checkError(visr::efl::vectorMultiplyConstantAdd<T>(constFactor, factorPtr, addendPtr, resultPtr, numElements, alignment));
-  }, py::arg("constantFactor"), py::arg("factor"), py::arg("addend"), py::arg("result"), py::arg("numElements"), py::arg("alignment") = 0);
+  }, py::arg("constantFactor"), py::arg("factor"), py::arg("addend"), py::arg("result").noconvert(), py::arg("numElements"), py::arg("alignment") = 0);
 }
 
 // template<typename T>
@@ -379,7 +379,7 @@ void exportVectorMultiplyConstantAddInplace(py::module & m)
     T const * const factorPtr = visr::python::bindinghelpers::ContainerAccess<Container, T >::constantPointer(factor, numElements, "factor");
     T * const accumulatorPtr = visr::python::bindinghelpers::ContainerAccess<Container, T >::mutablePointer(accumulator, numElements, "accumulator");
     detail::checkError(visr::efl::vectorMultiplyConstantAddInplace<T>(constFactor, factorPtr, accumulatorPtr, numElements, alignment));
-  }, py::arg("constantValue"), py::arg("factor"), py::arg("accumulator"), py::arg("numElements"), py::arg("alignment") = 0);
+  }, py::arg("constantValue"), py::arg("factor"), py::arg("accumulator").noconvert(), py::arg("numElements"), py::arg("alignment") = 0);
 }
 
 //template<typename T>
@@ -405,7 +405,7 @@ void exportVectorRampScaling(py::module & m)
     T * const outputPtr = visr::python::bindinghelpers::ContainerAccess<Container, T >::mutablePointer(output, numElements, "output");
     detail::checkError(visr::efl::vectorRampScaling<T>(inputPtr, rampPtr, outputPtr,
       baseGain, rampGain, numElements, accumulate, alignment));
-  }, py::arg("input"), py::arg("ramp"), py::arg("output"), py::arg( "baseGain" ),
+  }, py::arg("input"), py::arg("ramp"), py::arg("output").noconvert(), py::arg( "baseGain" ),
     py::arg( "rampGain" ), py::arg("numElements"), py::arg( "accumulate" ) = false, py::arg("alignment") = 0 );
 }
 
-- 
2.43.0


From bfd8f56cdd6705b32b50b59fb87878499a4f45f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:30 +0000
Subject: [PATCH 106/139] fix: strided efl functions accessed elements beyond
 the Python arrays

---
 src/python/efl/filter_functions.cpp   |  7 +++++--
 src/python/efl/vector_conversions.cpp | 16 ++++++++++++----
 2 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/python/efl/filter_functions.cpp b/src/python/efl/filter_functions.cpp
index a0b8a1a..48c538e 100644
--- a/src/python/efl/filter_functions.cpp
+++ b/src/python/efl/filter_functions.cpp
@@ -42,10 +42,13 @@ void export_iirFilterBiquadsSingleChannel( py::module & m )
 	 {
 	   T const * inputPtr = ContainerAccess<Container, T >::constantPointer( input, numElements, "input" );
      T * outputPtr = ContainerAccess<Container, T >::mutablePointer( output, numElements, "dest" );
+     // Number of elements accessed in the states and coefficient vectors.
+     std::size_t const stateSize{ numSections == 0 ? 0 : (numSections - 1) * stateStride + 2 };
+     std::size_t const coeffSize{ numSections == 0 ? 0 : (numSections - 1) * coeffStride + 5 };
      T * statesPtr = ContainerAccess<Container, T >::mutablePointer( states,
-       numSections*stateStride, "states" );
+       stateSize, "states" );
      T const * coeffsPtr = ContainerAccess<Container, T >::constantPointer( coeffs,
-       coeffStride * numSections, "coeffs" );
+       coeffSize, "coeffs" );
      checkError( visr::efl::iirFilterBiquadsSingleChannel<T>( inputPtr, outputPtr, statesPtr,
          coeffsPtr, numElements, numSections, stateStride, coeffStride, alignment ) );
 	 }, py::arg("input"), py::arg("output").noconvert(), py::arg("states").noconvert(), py::arg("coeffs"),
diff --git a/src/python/efl/vector_conversions.cpp b/src/python/efl/vector_conversions.cpp
index ded7da3..99eb9a9 100644
--- a/src/python/efl/vector_conversions.cpp
+++ b/src/python/efl/vector_conversions.cpp
@@ -27,6 +27,14 @@ namespace python
 namespace // unnamed
 {
 
+/**
+ * Return the number of elements a vector needs to hold to access \p numElements with a given stride.
+ */
+inline std::size_t stridedSize( std::size_t numElements, std::size_t stride )
+{
+  return numElements == 0 ? 0 : (numElements - 1) * stride + 1;
+}
+
 // template< typename InputType, typename OutputType >
 // ErrorCode vectorConvert( InputType const * const src,
 //                          OutputType * const dest,
@@ -58,7 +66,7 @@ void exportVectorConvertInputStride( py::module & m )
          []( Container<InputType> const & src, Container<OutputType> & dest, std::size_t numElements,
          std::size_t inputStride,  std::size_t alignment )
    {
-     InputType const * const srcPtr = visr::python::bindinghelpers::ContainerAccess<Container, InputType >::constantPointer( src, numElements, "src" );
+     InputType const * const srcPtr = visr::python::bindinghelpers::ContainerAccess<Container, InputType >::constantPointer( src, stridedSize( numElements, inputStride ), "src" );
      OutputType * const destPtr = visr::python::bindinghelpers::ContainerAccess<Container, OutputType >::mutablePointer( dest, numElements, "dest" );
      detail::checkError( efl::vectorConvertInputStride<InputType,
        OutputType>( srcPtr, destPtr, numElements, inputStride,
@@ -82,7 +90,7 @@ void exportVectorConvertOutputStride( py::module & m )
          std::size_t outputStride,  std::size_t alignment )
    {
      InputType const * const srcPtr = visr::python::bindinghelpers::ContainerAccess<Container, InputType >::constantPointer( src, numElements, "src" );
-     OutputType * const destPtr = visr::python::bindinghelpers::ContainerAccess<Container, OutputType >::mutablePointer( dest, numElements, "dest" );
+     OutputType * const destPtr = visr::python::bindinghelpers::ContainerAccess<Container, OutputType >::mutablePointer( dest, stridedSize( numElements, outputStride ), "dest" );
      detail::checkError( efl::vectorConvertOutputStride<InputType,
        OutputType>( srcPtr, destPtr, numElements, outputStride,
        alignment ) );
@@ -105,8 +113,8 @@ void exportVectorConvertInputOutputStride( py::module & m )
          []( Container<InputType> const & src, Container<OutputType> & dest, std::size_t numElements,
          std::size_t inputStride, std::size_t outputStride,  std::size_t alignment )
    {
-     InputType const * const srcPtr = visr::python::bindinghelpers::ContainerAccess<Container, InputType >::constantPointer( src, numElements, "src" );
-     OutputType * const destPtr = visr::python::bindinghelpers::ContainerAccess<Container, OutputType >::mutablePointer( dest, numElements, "dest" );
+     InputType const * const srcPtr = visr::python::bindinghelpers::ContainerAccess<Container, InputType >::constantPointer( src, stridedSize( numElements, inputStride ), "src" );
+     OutputType * const destPtr = visr::python::bindinghelpers::ContainerAccess<Container, OutputType >::mutablePointer( dest, stridedSize( numElements, outputStride ), "dest" );
      detail::checkError( efl::vectorConvertInputOutputStride<InputType,
        OutputType>( srcPtr, destPtr, numElements, inputStride, outputStride,
        alignment ) );
-- 
2.43.0


From 1f9b17b40e4ecff424028269af4a40d97b13a3f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:14 +0000
Subject: [PATCH 107/139] fix: Python iterators over containers accessed freed
 memory if the container had no other reference

---
 src/python/efl/basic_vector.cpp             | 2 +-
 src/python/objectmodel/object_vector.cpp    | 2 +-
 src/python/pml/signal_routing_parameter.cpp | 2 +-
 src/python/rbbl/biquad_coefficient.cpp      | 2 +-
 src/python/rbbl/filter_routing.cpp          | 2 +-
 src/python/rbbl/interpolation_parameter.cpp | 4 ++--
 src/python/rbbl/sparse_gain_routing.cpp     | 2 +-
 src/python/visr/channel_list.cpp            | 2 +-
 8 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/python/efl/basic_vector.cpp b/src/python/efl/basic_vector.cpp
index 3a7b848..c28d6fe 100644
--- a/src/python/efl/basic_vector.cpp
+++ b/src/python/efl/basic_vector.cpp
@@ -87,7 +87,7 @@ void exportBasicVector( py::module & m, char const * className )
   .def( "set", &setData<DataType> )
   .def( "__getitem__", []( BasicVector<DataType> const & vec, std::size_t idx ) { return vec.at( idx ); }, py::arg( "index" ) )
   .def( "__setitem__", []( BasicVector<DataType> & vec, std::size_t idx, DataType val ) { vec.at( idx ) = val; }, py::arg( "index" ), py::arg( "value" ) )
-  .def( "__iter__", []( BasicVector<DataType> & vec ){ return py::make_iterator(vec.data(), vec.data()+vec.size() ); }, "Return an iterator pair to the contents of the vector" )
+  .def( "__iter__", []( BasicVector<DataType> & vec ){ return py::make_iterator(vec.data(), vec.data()+vec.size() ); }, py::keep_alive<0, 1>(), "Return an iterator pair to the contents of the vector" )
   ;
 }
 
diff --git a/src/python/objectmodel/object_vector.cpp b/src/python/objectmodel/object_vector.cpp
index 74b3b53..0007eb0 100644
--- a/src/python/objectmodel/object_vector.cpp
+++ b/src/python/objectmodel/object_vector.cpp
@@ -30,7 +30,7 @@ void exportObjectVector( py::module & m )
        }
        return inst;
      }), py::arg("objects"), "Create an object vector out of a Pyhon list of objects." )
-    .def( "__iter__", [](ObjectVector& ov){ return py::make_iterator(ov.begin(), ov.end() ); }, py::return_value_policy::reference_internal, "Return a Python iterator over all contained objects." )
+    .def( "__iter__", [](ObjectVector& ov){ return py::make_iterator(ov.begin(), ov.end() ); }, py::keep_alive<0, 1>(), "Return a Python iterator over all contained objects." )
     .def_property_readonly( "size", &ObjectVector::size, "Return the number of objects in the vector" )
     .def_property_readonly( "empty", &ObjectVector::empty, "Return whether the object vector is empty." )
     .def( "at", static_cast<Object&(ObjectVector::*)(ObjectId)>(&ObjectVector::at), py::return_value_policy::reference_internal, py::arg("id"), "Return a reference to an object with the given id." )
diff --git a/src/python/pml/signal_routing_parameter.cpp b/src/python/pml/signal_routing_parameter.cpp
index e069239..8992d1c 100644
--- a/src/python/pml/signal_routing_parameter.cpp
+++ b/src/python/pml/signal_routing_parameter.cpp
@@ -46,7 +46,7 @@ void exportSignalRoutingParameter( py::module & m)
                        }
                        return inst;
                      } ), py::arg("initList") )
-   .def( "__iter__", [](SignalRoutingParameter& sr){ return py::make_iterator(sr.begin(), sr.end()); }, "Return a Python iterator over the contained routings." )
+   .def( "__iter__", [](SignalRoutingParameter& sr){ return py::make_iterator(sr.begin(), sr.end()); }, py::keep_alive<0, 1>(), "Return a Python iterator over the contained routings." )
    .def_property_readonly("size", &SignalRoutingParameter::size )
    .def( "swap", &SignalRoutingParameter::swap )
    .def_property_readonly("empty", &SignalRoutingParameter::empty )
diff --git a/src/python/rbbl/biquad_coefficient.cpp b/src/python/rbbl/biquad_coefficient.cpp
index 3e6f086..5526577 100644
--- a/src/python/rbbl/biquad_coefficient.cpp
+++ b/src/python/rbbl/biquad_coefficient.cpp
@@ -113,7 +113,7 @@ namespace
       .def( "__len__", &BiquadCoefficientList<CoeffType>::size )
       .def( "__setitem__", []( BiquadCoefficientList<CoeffType> & self, std::size_t idx, BiquadCoefficient<CoeffType> const & val ){ self.at(idx) = val; } )
       .def( "__getitem__", static_cast<BiquadCoefficient<CoeffType> const &(BiquadCoefficientList<CoeffType>::*)(std::size_t)const>(&BiquadCoefficientList<CoeffType>::at ) )
-      .def( "__iter__", []( BiquadCoefficientList<CoeffType> & lst ){ return py::make_iterator( lst.begin(), lst.end()); } ) 
+      .def( "__iter__", []( BiquadCoefficientList<CoeffType> & lst ){ return py::make_iterator( lst.begin(), lst.end()); }, py::keep_alive<0, 1>() ) 
       .def( "loadJson", static_cast< void( BiquadCoefficientList<CoeffType>::*)(std::string const &)>(&BiquadCoefficientList<CoeffType>::loadJson ) )
       .def( "loadXml", static_cast< void(BiquadCoefficientList<CoeffType>::*)(std::string const &)>(&BiquadCoefficientList<CoeffType>::loadJson) )
       .def( "writeJson", []( BiquadCoefficientList<CoeffType> const & self ) { std::string str; self.writeJson( str ); return self; } )
diff --git a/src/python/rbbl/filter_routing.cpp b/src/python/rbbl/filter_routing.cpp
index e0ec8d3..c844ff4 100644
--- a/src/python/rbbl/filter_routing.cpp
+++ b/src/python/rbbl/filter_routing.cpp
@@ -48,7 +48,7 @@ void exportFilterRouting( pybind11::module & m)
     .def_property_readonly("empty", &FilterRoutingList::empty )
     .def_property_readonly("size", &FilterRoutingList::size )
     .def( "__len__", &FilterRoutingList::size )
-    .def( "__iter__", [](FilterRoutingList & fr ){ return pybind11::make_iterator(fr.begin(), fr.end() ); } )
+    .def( "__iter__", [](FilterRoutingList & fr ){ return pybind11::make_iterator(fr.begin(), fr.end() ); }, pybind11::keep_alive<0, 1>() )
     .def( "__repr__", [](FilterRoutingList const & frl )
     {
       std::stringstream ret;
diff --git a/src/python/rbbl/interpolation_parameter.cpp b/src/python/rbbl/interpolation_parameter.cpp
index f987308..a693f34 100644
--- a/src/python/rbbl/interpolation_parameter.cpp
+++ b/src/python/rbbl/interpolation_parameter.cpp
@@ -49,7 +49,7 @@ void exportInterpolationParameter( pybind11::module & m)
   			} ), py::arg( "interpolantList") )
   	.def( "__len__", &InterpolationParameterSet::size )
   	.def_property_readonly( "size", &InterpolationParameterSet::size )
-  	.def( "__iter__", [](InterpolationParameterSet & self){ return py::make_iterator(self.begin(), self.end() ); } )
+  	.def( "__iter__", [](InterpolationParameterSet & self){ return py::make_iterator(self.begin(), self.end() ); }, py::keep_alive<0, 1>() )
   	.def( "insert", [](InterpolationParameterSet & self, InterpolationParameter const & val ) { self.insert( val ); } )
   	.def( "__getitem__", [](InterpolationParameterSet & self, InterpolationParameter::IdType id )
   		  {
@@ -57,7 +57,7 @@ void exportInterpolationParameter( pybind11::module & m)
   	  	  	// C++14 would allow searching for a key without constructing an element.
   	  	  	InterpolationParameterSet::iterator const findIt = self.find( cmp );
   	  	  	return (findIt == self.end()) ? nullptr : &(*findIt);
-  		  }, py::arg("index"), py::return_value_policy::reference, "Return an interpolation parameter for a given filter index" )
+  		  }, py::arg("index"), py::return_value_policy::reference_internal, "Return an interpolation parameter for a given filter index" )
 	;
 }
 
diff --git a/src/python/rbbl/sparse_gain_routing.cpp b/src/python/rbbl/sparse_gain_routing.cpp
index 22cec37..a5ee57d 100644
--- a/src/python/rbbl/sparse_gain_routing.cpp
+++ b/src/python/rbbl/sparse_gain_routing.cpp
@@ -48,7 +48,7 @@ void exportSparseGainRouting( pybind11::module & m)
     .def_property_readonly("size", &SparseGainRoutingList::size )
     .def( "swap", &SparseGainRoutingList::swap, py::arg( "rhs") )
     .def( "__len__", &SparseGainRoutingList::size )
-    .def( "__iter__", [](SparseGainRoutingList & sgr ){ return pybind11::make_iterator(sgr.begin(), sgr.end() ); } )
+    .def( "__iter__", [](SparseGainRoutingList & sgr ){ return pybind11::make_iterator(sgr.begin(), sgr.end() ); }, pybind11::keep_alive<0, 1>() )
     .def( "__getitem__", &SparseGainRoutingList::getEntry )
     .def( "__repr__", [](SparseGainRoutingList const & sgr )
     {
diff --git a/src/python/visr/channel_list.cpp b/src/python/visr/channel_list.cpp
index 826d91d..cb19fe6 100644
--- a/src/python/visr/channel_list.cpp
+++ b/src/python/visr/channel_list.cpp
@@ -41,7 +41,7 @@ void exportChannelList( pybind11::module& m )
     .def_property_readonly( "__len__", &ChannelList::size )
     .def( "__getitem__", static_cast<ChannelList::IndexType(ChannelList::*)(std::size_t)const>(&ChannelList::at) )
     .def( "__setitem__", [](ChannelList& cl, std::size_t index, ChannelList::IndexType val ){ cl.at(index) =val; } )
-    .def("__iter__", [](ChannelList &v) { return pybind11::make_iterator(v.begin(), v.end());} )
+    .def("__iter__", [](ChannelList &v) { return pybind11::make_iterator(v.begin(), v.end());}, pybind11::keep_alive<0, 1>() )
     ;
 }
 
-- 
2.43.0


From ffb89716f7619ba4997f66bd1f718c43bc0a8e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:48 +0000
Subject: [PATCH 108/139] fix: Python bindings of the object model accessed
 freed memory, null pointers and arrays of wrong dimension

---
 src/python/objectmodel/object_vector.cpp      | 25 ++++++++++++++++++-
 .../objectmodel/point_source_with_reverb.cpp  |  6 ++---
 2 files changed, 27 insertions(+), 4 deletions(-)

diff --git a/src/python/objectmodel/object_vector.cpp b/src/python/objectmodel/object_vector.cpp
index 0007eb0..ca577e5 100644
--- a/src/python/objectmodel/object_vector.cpp
+++ b/src/python/objectmodel/object_vector.cpp
@@ -17,12 +17,32 @@ namespace objectmodel
 namespace python
 {
 
+namespace // unnamed
+{
+
+/**
+ * Check a list of objects passed from Python, which might contain "None" elements.
+ */
+void checkObjects( std::vector<Object const *> const & objects )
+{
+  for( Object const * obj : objects )
+  {
+    if( obj == nullptr )
+    {
+      throw std::invalid_argument( "ObjectVector: The list of objects must not contain None elements." );
+    }
+  }
+}
+
+} // unnamed namespace
+
 void exportObjectVector( py::module & m )
 {
   py::class_<ObjectVector>( m, "ObjectVector" )
     .def( py::init<>(), "Default constructor" )
     .def( py::init( []( std::vector<Object const *> vec )
      {
+       checkObjects( vec );
        ObjectVector * inst = new ObjectVector();
        for( Object const * obj : vec )
        {
@@ -38,6 +58,7 @@ void exportObjectVector( py::module & m )
     .def( "insert", static_cast<void(ObjectVector::*)(Object const&)>(&ObjectVector::insert), py::arg("obj"), "Set an object given id. If an object with that id already exists, it is replaced." )
     .def( "set", []( ObjectVector & ov, std::vector<Object const *> const & vec )
      {
+       checkObjects( vec );
        ov.clear();
        for( Object const * obj : vec )
        {
@@ -45,7 +66,9 @@ void exportObjectVector( py::module & m )
        }
      }, "Fill an object vector from a list of objects" )
     .def( "insert", [](ObjectVector & ov, std::vector<Object const *> const & vec )
-     { for( Object const * obj : vec )
+     {
+       checkObjects( vec );
+       for( Object const * obj : vec )
        {
          ov.insert( *obj );
        }
diff --git a/src/python/objectmodel/point_source_with_reverb.cpp b/src/python/objectmodel/point_source_with_reverb.cpp
index 0ebcee4..2bd779e 100644
--- a/src/python/objectmodel/point_source_with_reverb.cpp
+++ b/src/python/objectmodel/point_source_with_reverb.cpp
@@ -63,7 +63,7 @@ void setArray( PointSourceWithReverb::LateReverb & param,
                CoeffSetter method,
                pybind11::array_t<float> const & values )
 {
-  if( values.shape()[0] != PointSourceWithReverb::cNumberOfSubBands )
+  if( (values.ndim() != 1) or (values.shape()[0] != PointSourceWithReverb::cNumberOfSubBands) )
   {
     throw std::invalid_argument( "PointSourceWithReverb::LateReverb::setArray() called with wrong array length." );
   }
@@ -84,11 +84,11 @@ void exportPointSourceWithReverb( pybind11::module & m )
     .def( py::init<ObjectId>(), py::arg("objectId") )
     .def_property_readonly( "lateReverb",
       static_cast<PointSourceWithReverb::LateReverb const&(PointSourceWithReverb::*)()const>(&PointSourceWithReverb::lateReverb),
-      py::return_value_policy::reference )
+      py::return_value_policy::reference_internal )
     .def( "numberOfDiscreteReflections", &PointSourceWithReverb::numberOfDiscreteReflections )
     .def( "setNumberOfDiscreteReflections", &PointSourceWithReverb::setNumberOfDiscreteReflections, py::arg( "newNumber" ) )
     .def( "discreteReflection", static_cast<PointSourceWithReverb::DiscreteReflection&(PointSourceWithReverb::*)(std::size_t)>(&PointSourceWithReverb::discreteReflection),
-      py::arg( "idx" ), py::return_value_policy::reference )
+      py::arg( "idx" ), py::return_value_policy::reference_internal )
     .def( "setDiscreteReflections", &setDiscreteReflections, py::arg( "newReflections" ) )
   .def_property_readonly_static("numberOfDiscreteReflectionEqSections", []( py::object self ){ return PointSourceWithReverb::cNumDiscreteReflectionBiquads; }, "Number of wall reflection biquad sections." )
   .def_property_readonly_static("numberOfLateReflectionSubbands", []( py::object self ){ return PointSourceWithReverb::cNumberOfSubBands; }, "Number of filter subbands for the late reverb filter parameter." )
-- 
2.43.0


From 62a687d13bb7ba0c723a5f9ca5f6ad82b3567fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:04 +0000
Subject: [PATCH 109/139] fix: len() of channel lists and the full name of
 ports were wrong in Python

---
 src/python/visr/audio_port.cpp     | 2 +-
 src/python/visr/channel_list.cpp   | 2 +-
 src/python/visr/parameter_port.cpp | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/python/visr/audio_port.cpp b/src/python/visr/audio_port.cpp
index 2be40f1..45785e8 100644
--- a/src/python/visr/audio_port.cpp
+++ b/src/python/visr/audio_port.cpp
@@ -186,7 +186,7 @@ void exportAudioPort( py::module & m)
     .def_property_readonly( "name", []( AudioPortBase const & port ) { return port.implementation().name(); } )
     .def_property_readonly( "qualifiedName", []( AudioPortBase const & port ) { return port.implementation().parent().name()
       + ":" +port.implementation().name(); }, "Return the port name as a component:port combination" )
-    .def_property_readonly( "fullName", []( AudioPortBase const & port ) { return port.implementation().parent().name()
+    .def_property_readonly( "fullName", []( AudioPortBase const & port ) { return port.implementation().parent().fullName()
     + ":" +port.implementation().name(); }, "Return the port name as a component:port combination with a fully hierarchical component name." )
     .def_property_readonly( "direction", []( AudioPortBase const & port ) { return port.implementation().direction(); } )
     ;
diff --git a/src/python/visr/channel_list.cpp b/src/python/visr/channel_list.cpp
index cb19fe6..70da344 100644
--- a/src/python/visr/channel_list.cpp
+++ b/src/python/visr/channel_list.cpp
@@ -38,7 +38,7 @@ void exportChannelList( pybind11::module& m )
     .def( pybind11::init<ChannelRange const & >() )
     .def( "__str__", [](ChannelList const & self ){ std::stringstream outStr; outStr << self; return outStr.str();} )
     .def_property_readonly( "size", &ChannelList::size)
-    .def_property_readonly( "__len__", &ChannelList::size )
+    .def( "__len__", &ChannelList::size )
     .def( "__getitem__", static_cast<ChannelList::IndexType(ChannelList::*)(std::size_t)const>(&ChannelList::at) )
     .def( "__setitem__", [](ChannelList& cl, std::size_t index, ChannelList::IndexType val ){ cl.at(index) =val; } )
     .def("__iter__", [](ChannelList &v) { return pybind11::make_iterator(v.begin(), v.end());}, pybind11::keep_alive<0, 1>() )
diff --git a/src/python/visr/parameter_port.cpp b/src/python/visr/parameter_port.cpp
index 5359e97..56f412e 100644
--- a/src/python/visr/parameter_port.cpp
+++ b/src/python/visr/parameter_port.cpp
@@ -37,7 +37,7 @@ void exportParameterPort( pybind11::module & m)
     .def_property_readonly( "name", []( ParameterPortBase const & port ) { return port.implementation().name(); } )
     .def_property_readonly( "qualifiedName", []( ParameterPortBase const & port ) { return port.implementation().parent().name()
       + ":" +port.implementation().name(); }, "Return the port name as a component:port combination" )
-    .def_property_readonly( "fullName", []( ParameterPortBase const & port ) { return port.implementation().parent().name()
+    .def_property_readonly( "fullName", []( ParameterPortBase const & port ) { return port.implementation().parent().fullName()
       + ":" +port.implementation().name(); }, "Return the port name as a component:port combination with a fully hierarchical component name." )
     .def_property_readonly( "direction", []( ParameterPortBase const & port ) { return port.implementation().direction(); } )
 //    .def( "hasParameterConfig", &ParameterPortBase::hasParameterConfig)
-- 
2.43.0


From 63237b63742e2de64c161c71783bf3ebd0b6cd8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:34 +0000
Subject: [PATCH 110/139] fix: the destructors of ports that outlive their
 component accessed freed memory

---
 src/libvisr/impl/component_implementation.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/libvisr/impl/component_implementation.cpp b/src/libvisr/impl/component_implementation.cpp
index 52fb28f..0df3ec2 100644
--- a/src/libvisr/impl/component_implementation.cpp
+++ b/src/libvisr/impl/component_implementation.cpp
@@ -49,6 +49,15 @@ ComponentImplementation::~ComponentImplementation()
   {
     mParent->unregisterChildComponent( this );
   }
+  // Detach ports that outlive the component, which is possible if they are owned by Python code.
+  for( auto port : mAudioPorts )
+  {
+    port->removeParent();
+  }
+  for( auto port : mParameterPorts )
+  {
+    port->removeParent();
+  }
 }
 
 /*static*/ const std::string ComponentImplementation::cNameSeparator = ":";
-- 
2.43.0


From 1f09635cd002479d460205d51a7a67898a21226f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:03 +0000
Subject: [PATCH 111/139] fix: Python bindings of biquad lists and matrices
 could not be resized or written to text, and parsed XML as JSON

---
 src/python/rbbl/biquad_coefficient.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/python/rbbl/biquad_coefficient.cpp b/src/python/rbbl/biquad_coefficient.cpp
index 5526577..ff1a8e7 100644
--- a/src/python/rbbl/biquad_coefficient.cpp
+++ b/src/python/rbbl/biquad_coefficient.cpp
@@ -108,16 +108,16 @@ namespace
         } ), py::arg( "initList" ), "Constructor from list of biquads" )
       .def_static( "fromJson", []( std::string const & str ){ return BiquadCoefficientList<CoeffType>::fromJson( str ); } )
       .def_static( "fromXml", []( std::string const & str ){ return BiquadCoefficientList<CoeffType>::fromXml( str ); } )
-      .def_property( "size", &BiquadCoefficientList<CoeffType>::size, &BiquadCoefficientList<CoeffType>::size )
-      .def( "resize", &BiquadCoefficientList<CoeffType>::size )
+      .def_property( "size", &BiquadCoefficientList<CoeffType>::size, &BiquadCoefficientList<CoeffType>::resize )
+      .def( "resize", &BiquadCoefficientList<CoeffType>::resize, py::arg( "newSize" ) )
       .def( "__len__", &BiquadCoefficientList<CoeffType>::size )
       .def( "__setitem__", []( BiquadCoefficientList<CoeffType> & self, std::size_t idx, BiquadCoefficient<CoeffType> const & val ){ self.at(idx) = val; } )
       .def( "__getitem__", static_cast<BiquadCoefficient<CoeffType> const &(BiquadCoefficientList<CoeffType>::*)(std::size_t)const>(&BiquadCoefficientList<CoeffType>::at ) )
       .def( "__iter__", []( BiquadCoefficientList<CoeffType> & lst ){ return py::make_iterator( lst.begin(), lst.end()); }, py::keep_alive<0, 1>() ) 
       .def( "loadJson", static_cast< void( BiquadCoefficientList<CoeffType>::*)(std::string const &)>(&BiquadCoefficientList<CoeffType>::loadJson ) )
-      .def( "loadXml", static_cast< void(BiquadCoefficientList<CoeffType>::*)(std::string const &)>(&BiquadCoefficientList<CoeffType>::loadJson) )
-      .def( "writeJson", []( BiquadCoefficientList<CoeffType> const & self ) { std::string str; self.writeJson( str ); return self; } )
-      .def( "writeXml", [](BiquadCoefficientList<CoeffType> const & self ){ std::string str; self.writeXml( str ); return self; } )
+      .def( "loadXml", static_cast< void(BiquadCoefficientList<CoeffType>::*)(std::string const &)>(&BiquadCoefficientList<CoeffType>::loadXml) )
+      .def( "writeJson", []( BiquadCoefficientList<CoeffType> const & self ) { std::string str; self.writeJson( str ); return str; } )
+      .def( "writeXml", [](BiquadCoefficientList<CoeffType> const & self ){ std::string str; self.writeXml( str ); return str; } )
       ;
   }
 
@@ -139,9 +139,9 @@ namespace
      .def( "__getitem__", []( BiquadCoefficientMatrix<CoeffType> & self, pybind11::tuple idx ) { return self( idx[0].cast<std::size_t>(), idx[1].cast<std::size_t>() ); }, pybind11::arg( "index" ) )
      .def( "setFilter", &BiquadCoefficientMatrix<CoeffType>::setFilter, py::arg( "filterIdx" ), py::arg( "newFilters" ) )
      .def( "loadJson", static_cast< void( BiquadCoefficientMatrix<CoeffType>::*)(std::string const &)>(&BiquadCoefficientMatrix<CoeffType>::loadJson ) )
-     .def( "loadXml", static_cast< void(BiquadCoefficientMatrix<CoeffType>::*)(std::string const &)>(&BiquadCoefficientMatrix<CoeffType>::loadJson) )
-     .def( "writeJson", []( BiquadCoefficientMatrix<CoeffType> const & self ) { std::string str; self.writeJson( str ); return self; } )
-     .def( "writeXml", [](BiquadCoefficientMatrix<CoeffType> const & self ){ std::string str; self.writeXml( str ); return self; } )
+     .def( "loadXml", static_cast< void(BiquadCoefficientMatrix<CoeffType>::*)(std::string const &)>(&BiquadCoefficientMatrix<CoeffType>::loadXml) )
+     .def( "writeJson", []( BiquadCoefficientMatrix<CoeffType> const & self ) { std::string str; self.writeJson( str ); return str; } )
+     .def( "writeXml", [](BiquadCoefficientMatrix<CoeffType> const & self ){ std::string str; self.writeXml( str ); return str; } )
     ;
   }
 
-- 
2.43.0


From 4ea311380e6aaf86cbe433c5affae336f1997971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:03 +0000
Subject: [PATCH 112/139] fix: Python bindings of the biquad matrix accessed
 elements out of range, fromJson of routing lists could not be called

---
 src/python/rbbl/biquad_coefficient.cpp  | 38 +++++++++++++++++++++----
 src/python/rbbl/filter_routing.cpp      |  2 +-
 src/python/rbbl/sparse_gain_routing.cpp |  2 +-
 3 files changed, 34 insertions(+), 8 deletions(-)

diff --git a/src/python/rbbl/biquad_coefficient.cpp b/src/python/rbbl/biquad_coefficient.cpp
index ff1a8e7..c58a20a 100644
--- a/src/python/rbbl/biquad_coefficient.cpp
+++ b/src/python/rbbl/biquad_coefficient.cpp
@@ -121,6 +121,18 @@ namespace
       ;
   }
 
+  /**
+   * Check indices passed from Python, because the matrix does not check them.
+   */
+  template< typename CoeffType >
+  void checkIndices( BiquadCoefficientMatrix<CoeffType> const & matrix, std::size_t rowIdx, std::size_t colIdx, std::size_t numberOfColumns )
+  {
+    if( (rowIdx >= matrix.numberOfFilters()) or (colIdx >= numberOfColumns) )
+    {
+      throw std::out_of_range( "BiquadCoefficientMatrix: Index exceeds the size of the matrix." );
+    }
+  }
+
   template< typename CoeffType >
   void exportBiquadCoefficientMatrix( pybind11::module & m, char const * className )
   {
@@ -131,12 +143,26 @@ namespace
      .def_property_readonly( "numberOfFilters", &BiquadCoefficientMatrix<CoeffType>::numberOfFilters )
      .def_property_readonly( "numberOfSections", &BiquadCoefficientMatrix<CoeffType>::numberOfSections )
      .def( "resize", &BiquadCoefficientMatrix<CoeffType>::resize, py::arg("numberOfFilters"), py::arg( "numberOfBiquads" ) )
-     .def( "__setitem__", []( BiquadCoefficientMatrix<CoeffType> & self, std::size_t idx, BiquadCoefficientList<CoeffType> const & val ){ self[idx] = val; } )
-     .def( "__getitem__", static_cast<BiquadCoefficientList<CoeffType> const &(BiquadCoefficientMatrix<CoeffType>::*)( std::size_t) const >
-      (&BiquadCoefficientMatrix<CoeffType>::operator[] ) )
-      .def( "__setitem__", []( BiquadCoefficientMatrix<CoeffType> & self, pybind11::tuple idx, BiquadCoefficient<CoeffType> const & val )
-        { self( idx[0].cast<std::size_t>(), idx[1].cast<std::size_t>() ) = val; } )
-     .def( "__getitem__", []( BiquadCoefficientMatrix<CoeffType> & self, pybind11::tuple idx ) { return self( idx[0].cast<std::size_t>(), idx[1].cast<std::size_t>() ); }, pybind11::arg( "index" ) )
+     .def( "__setitem__", []( BiquadCoefficientMatrix<CoeffType> & self, std::size_t idx, BiquadCoefficientList<CoeffType> const & val ){ self.setFilter( idx, val ); } )
+     .def( "__getitem__", []( BiquadCoefficientMatrix<CoeffType> const & self, std::size_t idx )
+       {
+         checkIndices( self, idx, 0, 1 /*no column access*/ );
+         return self[ idx ];
+       } )
+     .def( "__setitem__", []( BiquadCoefficientMatrix<CoeffType> & self, pybind11::tuple idx, BiquadCoefficient<CoeffType> const & val )
+       {
+         std::size_t const row = idx[0].cast<std::size_t>();
+         std::size_t const col = idx[1].cast<std::size_t>();
+         checkIndices( self, row, col, self.numberOfSections() );
+         self( row, col ) = val;
+       } )
+     .def( "__getitem__", []( BiquadCoefficientMatrix<CoeffType> const & self, pybind11::tuple idx )
+       {
+         std::size_t const row = idx[0].cast<std::size_t>();
+         std::size_t const col = idx[1].cast<std::size_t>();
+         checkIndices( self, row, col, self.numberOfSections() );
+         return self( row, col );
+       }, pybind11::arg( "index" ) )
      .def( "setFilter", &BiquadCoefficientMatrix<CoeffType>::setFilter, py::arg( "filterIdx" ), py::arg( "newFilters" ) )
      .def( "loadJson", static_cast< void( BiquadCoefficientMatrix<CoeffType>::*)(std::string const &)>(&BiquadCoefficientMatrix<CoeffType>::loadJson ) )
      .def( "loadXml", static_cast< void(BiquadCoefficientMatrix<CoeffType>::*)(std::string const &)>(&BiquadCoefficientMatrix<CoeffType>::loadXml) )
diff --git a/src/python/rbbl/filter_routing.cpp b/src/python/rbbl/filter_routing.cpp
index c844ff4..450e634 100644
--- a/src/python/rbbl/filter_routing.cpp
+++ b/src/python/rbbl/filter_routing.cpp
@@ -43,7 +43,7 @@ void exportFilterRouting( pybind11::module & m)
         }),
     pybind11::arg("entries"), "Constructor from Python list or iterable of type FilterRouting" )
     .def( pybind11::init<const FilterRoutingList &>() )
-    .def_static( "fromJson", [](FilterRoutingList &, std::string const & str ){ return FilterRoutingList::fromJson( str ); } )
+    .def_static( "fromJson", []( std::string const & str ){ return FilterRoutingList::fromJson( str ); } )
     .def( "parseJson", static_cast<void(FilterRoutingList::*)(std::string const &)>(&FilterRoutingList::parseJson), pybind11::arg("initString") )
     .def_property_readonly("empty", &FilterRoutingList::empty )
     .def_property_readonly("size", &FilterRoutingList::size )
diff --git a/src/python/rbbl/sparse_gain_routing.cpp b/src/python/rbbl/sparse_gain_routing.cpp
index a5ee57d..55f3e2d 100644
--- a/src/python/rbbl/sparse_gain_routing.cpp
+++ b/src/python/rbbl/sparse_gain_routing.cpp
@@ -42,7 +42,7 @@ void exportSparseGainRouting( pybind11::module & m)
         }),
     pybind11::arg("entries"), "Constructor from Python list or iterable of type FilterRouting" )
     .def( pybind11::init<const SparseGainRoutingList &>(), "Copy constructor" )
-    .def_static( "fromJson", []( SparseGainRoutingList &, std::string const & str ){ return SparseGainRoutingList::fromJson( str ); } )
+    .def_static( "fromJson", []( std::string const & str ){ return SparseGainRoutingList::fromJson( str ); } )
     .def( "parseJson", static_cast<void(SparseGainRoutingList::*)(std::string const &)>(&SparseGainRoutingList::parseJson), pybind11::arg("initString") )
     .def_property_readonly("empty", &SparseGainRoutingList::empty )
     .def_property_readonly("size", &SparseGainRoutingList::size )
-- 
2.43.0


From 3ecceb839db002df151a9b155d812bc66c4d7d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:50 +0000
Subject: [PATCH 113/139] fix: element access of TimeFrequencyParameter objects
 in Python checks the index

---
 src/python/pml/time_frequency_parameter.cpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/python/pml/time_frequency_parameter.cpp b/src/python/pml/time_frequency_parameter.cpp
index 421f37c..eb7cbfb 100644
--- a/src/python/pml/time_frequency_parameter.cpp
+++ b/src/python/pml/time_frequency_parameter.cpp
@@ -12,6 +12,7 @@
 #include <pybind11/numpy.h>
 
 #include <complex>
+#include <stdexcept>
 
 namespace py = pybind11;
 
@@ -26,6 +27,21 @@ namespace pml
 {
 namespace // unnamed
 {
+/**
+ * Check that an index addresses an element of the parameter.
+ * @throw std::out_of_range If this is not the case (translated to an IndexError)
+ */
+template< typename DataType >
+void checkIndex( TimeFrequencyParameter< DataType > const & param, py::tuple const & idx )
+{
+  if( (idx.size() != 3) or (idx[ 0 ].cast< std::size_t >() >= param.numberOfFrames())
+    or (idx[ 1 ].cast< std::size_t >() >= param.numberOfChannels())
+    or (idx[ 2 ].cast< std::size_t >() >= param.numberOfDftBins()) )
+  {
+    throw std::out_of_range( "TimeFrequencyParameter: Index exceeds the dimension of the parameter." );
+  }
+}
+
 template< typename DataType >
 void exportTimeFrequencyParameter( py::module & m, char const * className )
 {
@@ -105,6 +121,7 @@ void exportTimeFrequencyParameter( py::module & m, char const * className )
       .def(
           "__getitem__",
           []( TimeFrequencyParameter< DataType > const & self, py::tuple idx ) {
+            checkIndex( self, idx );
             return self.at( idx[ 0 ].cast< std::size_t >(),
                             idx[ 1 ].cast< std::size_t >(),
                             idx[ 2 ].cast< std::size_t >() );
@@ -114,6 +131,7 @@ void exportTimeFrequencyParameter( py::module & m, char const * className )
           "__setitem__",
           []( TimeFrequencyParameter< DataType > & self, py::tuple idx,
               ComplexType val ) {
+            checkIndex( self, idx );
             self.at( idx[ 0 ].cast< std::size_t >(),
                      idx[ 1 ].cast< std::size_t >(),
                      idx[ 2 ].cast< std::size_t >() ) = val;
-- 
2.43.0


From efb0c9c5337b999e0db0d771612d571fbb0f8f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:15 +0000
Subject: [PATCH 114/139] fix: give the Python bindings of BasicVector a length

They have indexed access and iterators, so that pybind11 takes them for
sequences: constructors with an overload for Python lists (rcl.DelayVector,
for example) raised 'object has no len()' instead of using the overload that
takes a BasicVector.
---
 src/python/efl/basic_vector.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/python/efl/basic_vector.cpp b/src/python/efl/basic_vector.cpp
index c28d6fe..1529df9 100644
--- a/src/python/efl/basic_vector.cpp
+++ b/src/python/efl/basic_vector.cpp
@@ -81,6 +81,7 @@ void exportBasicVector( py::module & m, char const * className )
           return inst;
         } ), py::arg( "values" ), py::arg( "alignment" ) = visr::cVectorAlignmentSamples, "Create a BasicVector from a Python list." )
     .def_property_readonly( "size", &BasicVector<DataType>::size )
+    .def( "__len__", &BasicVector<DataType>::size )
     .def_property_readonly( "alignment", &BasicVector<DataType>::alignmentElements, "Return the alignment of the numeric data (in number of elements)." )
   .def( "resize", []( BasicVector<DataType> & vp, std::size_t newSize ) { vp.resize(newSize); }, py::arg( "numberOfElements" ) )
   .def( "zeroFill", []( BasicVector<DataType> & vp ) { vp.zeroFill(); } )
-- 
2.43.0


From 46aa374de52d7a353902e83b158d25b0b84e17fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:49 +0000
Subject: [PATCH 115/139] fix: check the number of initial values in
 rcl::DelayVector::setup

A vector of initial gains or delays shorter than the number of channels was
read beyond its end. The Python constructor that takes vectors did this with
its own default argument (an empty vector) as soon as only one of them was
given; an empty vector now denotes the default value.
---
 src/librcl/delay_vector.cpp     |  4 ++++
 src/python/rcl/delay_vector.cpp | 17 ++++++++++++++++-
 2 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/librcl/delay_vector.cpp b/src/librcl/delay_vector.cpp
index ae4ea22..8d9f386 100644
--- a/src/librcl/delay_vector.cpp
+++ b/src/librcl/delay_vector.cpp
@@ -70,6 +70,10 @@ void DelayVector::setup( std::size_t numberOfChannels,
   {
     throw std::invalid_argument( "DelayVector::setup(): The parameter interpolationSteps must be greater or equal than the block size." );
   }
+  if( (initialDelaysSeconds.size() != numberOfChannels) or (initialGainsLinear.size() != numberOfChannels) )
+  {
+    throw std::invalid_argument( "DelayVector::setup(): The number of initial delay and gain values must match the number of channels." );
+  }
   mGainInterpolationCounter = 0;
   mDelayInterpolationCounter = 0;
 
diff --git a/src/python/rcl/delay_vector.cpp b/src/python/rcl/delay_vector.cpp
index 882f6fc..3ea7205 100644
--- a/src/python/rcl/delay_vector.cpp
+++ b/src/python/rcl/delay_vector.cpp
@@ -101,9 +101,24 @@ void exportDelayVector( py::module & m )
         DelayVector::MethodDelayPolicy methodDelayPolicy, DelayVector::ControlPortConfig controlInputs, efl::BasicVector< SampleType > const & initialDelaysSeconds,
         efl::BasicVector< SampleType > const & initialGainsLinear )
       {
+        // Empty vectors (the default arguments) denote the default delay and gain values.
+        efl::BasicVector<SampleType> defaultDelays;
+        efl::BasicVector<SampleType> defaultGains;
+        if( initialDelaysSeconds.size() == 0 )
+        {
+          defaultDelays.resize( numberOfChannels );
+          defaultDelays.fillValue( 0.0f );
+        }
+        if( initialGainsLinear.size() == 0 )
+        {
+          defaultGains.resize( numberOfChannels );
+          defaultGains.fillValue( 1.0f );
+        }
         DelayVector * inst = new DelayVector( context, name, parent );
         inst->setup( numberOfChannels, interpolationSteps, maxDelay, interpolationMethod,
-          methodDelayPolicy, controlInputs, initialDelaysSeconds, initialGainsLinear );
+          methodDelayPolicy, controlInputs,
+          initialDelaysSeconds.size() == 0 ? defaultDelays : initialDelaysSeconds,
+          initialGainsLinear.size() == 0 ? defaultGains : initialGainsLinear );
         return inst;
       }),
       py::arg( "context" ), py::arg( "name" ), py::arg( "parent" ),
-- 
2.43.0


From 7233df65b67d2430a403444553f3c1654ef3f25c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:14 +0000
Subject: [PATCH 116/139] fix: check the number of initial gains in
 rcl::GainVector::setup

A vector shorter than the number of channels was read beyond its end.
---
 src/librcl/gain_vector.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/librcl/gain_vector.cpp b/src/librcl/gain_vector.cpp
index 434def9..b099dbd 100644
--- a/src/librcl/gain_vector.cpp
+++ b/src/librcl/gain_vector.cpp
@@ -12,6 +12,7 @@
 #include <cassert>
 #include <ciso646>
 #include <cmath>
+#include <stdexcept>
 
 namespace visr
 {
@@ -48,6 +49,10 @@ void GainVector::setup( std::size_t numberOfChannels,
                           bool controlInputs,
                           efl::BasicVector< SampleType > const & initialGainsLinear )
 {
+  if( initialGainsLinear.size() != numberOfChannels )
+  {
+    throw std::invalid_argument( "GainVector::setup(): The number of initial gain values must match the number of channels." );
+  }
   mNumberOfChannels = numberOfChannels;
   mInput.setWidth(numberOfChannels);
   mOutput.setWidth(numberOfChannels);
-- 
2.43.0


From daf68d9f764c13a14b099c3813df91bac0948038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:34 +0000
Subject: [PATCH 117/139] fix: check the indices of the Python bindings of
 LoudspeakerArray

Channels and triplets with indices out of range were read and written, and
the gain matrices referred to freed memory after the array was deleted.
---
 src/python/panning/loudspeaker_array.cpp | 58 ++++++++++++++++++++----
 1 file changed, 50 insertions(+), 8 deletions(-)

diff --git a/src/python/panning/loudspeaker_array.cpp b/src/python/panning/loudspeaker_array.cpp
index d27f84e..368b4f4 100644
--- a/src/python/panning/loudspeaker_array.cpp
+++ b/src/python/panning/loudspeaker_array.cpp
@@ -6,6 +6,8 @@
 #include <pybind11/stl.h>
 #include <pybind11/numpy.h>
 
+#include <stdexcept>
+#include <string>
 #include <vector>
 
 namespace visr
@@ -73,6 +75,47 @@ py::array getPositions( LoudspeakerArray const & la )
   return ret;
 }
 
+/**
+ * Check an index passed from Python.
+ * @throw std::out_of_range (Python: IndexError) If the index does not exist.
+ */
+void checkIndex( std::size_t index, std::size_t size, char const * what )
+{
+  if( index >= size )
+  {
+    throw std::out_of_range( std::string( "LoudspeakerArray: The " ) + what + " index exceeds the admissible range." );
+  }
+}
+
+/** Return the output channel of a regular loudspeaker. */
+LoudspeakerArray::ChannelIndex getSpeakerChannel( LoudspeakerArray const & array, std::size_t spkIdx )
+{
+  checkIndex( spkIdx, array.getNumRegularSpeakers(), "loudspeaker" );
+  return array.getSpeakerChannel( spkIdx );
+}
+
+LoudspeakerArray::TripletType getTriplet( LoudspeakerArray const & array, std::size_t tripletIdx )
+{
+  checkIndex( tripletIdx, array.getNumTriplets(), "triplet" );
+  return array.getTriplet( tripletIdx );
+}
+
+std::size_t setTriplet( LoudspeakerArray & array, std::size_t tripletIdx, std::size_t spkIdx1, std::size_t spkIdx2, std::size_t spkIdx3 )
+{
+  checkIndex( tripletIdx, array.getNumTriplets(), "triplet" );
+  for( std::size_t spkIdx: { spkIdx1, spkIdx2, spkIdx3 } )
+  {
+    checkIndex( spkIdx, array.getNumSpeakers(), "loudspeaker" );
+  }
+  return array.setTriplet( tripletIdx, spkIdx1, spkIdx2, spkIdx3 );
+}
+
+/** Return the output channel of the regular loudspeaker with a given ID. */
+LoudspeakerArray::ChannelIndex getSpeakerChannelFromId( LoudspeakerArray const & array, LoudspeakerArray::LoudspeakerIdType const & id )
+{
+  return getSpeakerChannel( array, array.getSpeakerIndexFromId( id ) );
+}
+
 } // namespace unnamed
 
 void exportLoudspeakerArray( pybind11::module & m)
@@ -87,13 +130,12 @@ void exportLoudspeakerArray( pybind11::module & m)
     //.def( "getPosition", (visr::panning::XYZ &(LoudspeakerArray::*)(LoudspeakerArray::LoudspeakerIdType const & iSpk)) &LoudspeakerArray::getPosition )
     .def( "position", (visr::panning::XYZ const &(LoudspeakerArray::*)(LoudspeakerArray::LoudspeakerIdType const &) const)(&LoudspeakerArray::getPosition) )
     .def( "positions", &getPositions, "Return the loudspeaker positions (real and imaginary) as a Numpy array." )
-    .def( "getSpeakerChannelIndex", &LoudspeakerArray::channelIndex, pybind11::arg("speakerIndex"))
+    .def( "getSpeakerChannelIndex", &getSpeakerChannel, pybind11::arg("speakerIndex"))
     .def( "getSpeakerIndexFromId", &LoudspeakerArray::getSpeakerIndexFromId, pybind11::arg( "speakerId" ) )
-    .def( "getSpeakerChannel", &LoudspeakerArray::getSpeakerChannel, pybind11::arg( "speakerIndex" ) )
-    .def( "getSpeakerChannelFromId", &LoudspeakerArray::getSpeakerChannelFromId, pybind11::arg( "speakerId" ) )
-    .def( "setTriplet", &LoudspeakerArray::setTriplet, pybind11::arg("tripletIndex"), pybind11::arg("speakerId1"), pybind11::arg("speakerId2"), pybind11::arg("speakerId3"))
-    .def( "getTriplet", (LoudspeakerArray::TripletType &(LoudspeakerArray::*)(size_t iTri))&LoudspeakerArray::getTriplet)
-    .def( "getTriplet", (LoudspeakerArray::TripletType const &(LoudspeakerArray::*)(size_t iTri) const) &LoudspeakerArray::getTriplet)
+    .def( "getSpeakerChannel", &getSpeakerChannel, pybind11::arg( "speakerIndex" ) )
+    .def( "getSpeakerChannelFromId", &getSpeakerChannelFromId, pybind11::arg( "speakerId" ) )
+    .def( "setTriplet", &setTriplet, pybind11::arg("tripletIndex"), pybind11::arg("speakerId1"), pybind11::arg("speakerId2"), pybind11::arg("speakerId3"))
+    .def( "getTriplet", &getTriplet, pybind11::arg("tripletIndex") )
     .def_property_readonly("totNumberOfLoudspeakers", &LoudspeakerArray::getNumSpeakers)
     .def_property_readonly("numberOfRegularLoudspeakers", &LoudspeakerArray::getNumRegularSpeakers)
     .def_property_readonly("numberOfTriplets", &LoudspeakerArray::getNumTriplets)
@@ -102,8 +144,8 @@ void exportLoudspeakerArray( pybind11::module & m)
     .def_property_readonly("numberOfSubwoofers", &LoudspeakerArray::getNumSubwoofers)
     .def("subwooferChannelIndices", &getSubwooferChannelIndices )
     .def("subwooferChannelIndex", &LoudspeakerArray::getSubwooferChannel, pybind11::arg("subwooferIndex"))
-    .def("getSubwooferGains", &LoudspeakerArray::getSubwooferGains, pybind11::return_value_policy::reference)
-    .def("getReRoutingCoefficients", &LoudspeakerArray::getReroutingCoefficients, pybind11::return_value_policy::reference)
+    .def("getSubwooferGains", &LoudspeakerArray::getSubwooferGains, pybind11::return_value_policy::reference_internal)
+    .def("getReRoutingCoefficients", &LoudspeakerArray::getReroutingCoefficients, pybind11::return_value_policy::reference_internal)
     .def("getReRoutingCoefficient", &LoudspeakerArray::getReroutingCoefficient, pybind11::arg("virtualSpeakerIdx"), pybind11::arg("realSpeakerIdx"))
     .def("getLoudspeakerGainAdjustment", &LoudspeakerArray::getLoudspeakerGainAdjustment, pybind11::arg("speakerIdx"))
     .def("getLoudspeakerDelayAdjustment", &LoudspeakerArray::getLoudspeakerDelayAdjustment, pybind11::arg("speakerIdx"))
-- 
2.43.0


From 9127e35b8e6992aa5f82152965dc9af5c13d6b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:34 +0000
Subject: [PATCH 118/139] fix: check the gain array passed to
 VBAP.calculateGains in Python

Arrays of other types were converted, so that the result was lost; gains were
written beyond arrays that are too short, to wrong elements of strided arrays
and to read-only arrays.
---
 src/libpanning/VBAP.h       |  7 +++++-
 src/python/panning/vbap.cpp | 43 +++++++++++++++++++++++++++++++++----
 2 files changed, 45 insertions(+), 5 deletions(-)

diff --git a/src/libpanning/VBAP.h b/src/libpanning/VBAP.h
index 31b916c..ccbd7d1 100644
--- a/src/libpanning/VBAP.h
+++ b/src/libpanning/VBAP.h
@@ -66,7 +66,12 @@ public:
    * @param z Cartesian z coordinate of the new listener position
    */
   void setListenerPosition( SampleType x, SampleType y, SampleType z );
-  
+
+  /**
+   * Return the number of regular (non-virtual) loudspeakers, i.e., of gains calculated.
+   */
+  std::size_t numberOfRegularLoudspeakers() const { return numRegLoudspeakers; }
+
 private:
   
   bool is2D;
diff --git a/src/python/panning/vbap.cpp b/src/python/panning/vbap.cpp
index 81963ae..466f64c 100644
--- a/src/python/panning/vbap.cpp
+++ b/src/python/panning/vbap.cpp
@@ -8,6 +8,11 @@
 #include <pybind11/numpy.h>
 #include <pybind11/stl.h>
 
+#include <ciso646>
+#include <cstring>
+#include <stdexcept>
+#include <vector>
+
 namespace visr
 {
 using panning::VBAP;
@@ -20,6 +25,36 @@ namespace panning
 
 namespace py = pybind11;
 
+namespace
+{
+
+/**
+ * Store loudspeaker gains in an array passed from Python.
+ * @throw std::invalid_argument If the array is not a float32 vector with an element for every loudspeaker.
+ */
+void storeGains( VBAP const & vbap, SampleType x, SampleType y, SampleType z, py::array & gains, bool planeWave,
+                 void (VBAP::*calculate)( SampleType, SampleType, SampleType, SampleType *, bool ) const )
+{
+  if( not py::isinstance<py::array_t<SampleType> >( gains ) )
+  {
+    throw std::invalid_argument( "VBAP: The gains must be an array of type float32." );
+  }
+  std::size_t const numGains{ vbap.numberOfRegularLoudspeakers() };
+  if( (gains.ndim() != 1) or (static_cast<std::size_t>(gains.shape( 0 )) < numGains) )
+  {
+    throw std::invalid_argument( "VBAP: The gains must be a vector with an element for every loudspeaker." );
+  }
+  char * const dest{ static_cast<char *>( gains.mutable_data() ) }; // Checks whether the array is writeable.
+  std::vector<SampleType> result( numGains );
+  (vbap.*calculate)( x, y, z, result.data(), planeWave );
+  for( std::size_t idx( 0 ); idx < numGains; ++idx )
+  {
+    std::memcpy( dest + static_cast<py::ssize_t>( idx ) * gains.strides( 0 ), &result[idx], sizeof( SampleType ) );
+  }
+}
+
+} // unnamed namespace
+
 void exportVBAP(pybind11::module & m)
 {
   pybind11::class_<VBAP>(m, "VBAP")
@@ -28,12 +63,12 @@ void exportVBAP(pybind11::module & m)
          pybind11::arg("listenerPosY")=0.0,
          pybind11::arg("listenerPosZ")=0.0)
     .def( "calculateGains",
-          [](VBAP const & self, SampleType x, SampleType y, SampleType z, pybind11::array_t<SampleType> & gains, bool planeWave)
-          { self.calculateGains(x, y, z, static_cast<SampleType*>(gains.request().ptr), planeWave); },
+          [](VBAP const & self, SampleType x, SampleType y, SampleType z, py::array & gains, bool planeWave)
+          { storeGains( self, x, y, z, gains, planeWave, &VBAP::calculateGains ); },
           py::arg("x"), py::arg("y"), py::arg("z"), py::arg("gains"), py::arg("planeWave") = false)
     .def( "calculateGainsUnNormalised",
-          []( VBAP const & self, SampleType x , SampleType y, SampleType z, pybind11::array_t<SampleType> & gains, bool planeWave )
-          { self.calculateGainsUnNormalised( x, y, z, static_cast<SampleType*>(gains.request().ptr), planeWave ); },
+          []( VBAP const & self, SampleType x , SampleType y, SampleType z, py::array & gains, bool planeWave )
+          { storeGains( self, x, y, z, gains, planeWave, &VBAP::calculateGainsUnNormalised ); },
           py::arg("x"), py::arg("y"), py::arg("z"), py::arg("gains"), py::arg("planeWave")=false )
     .def("setListenerPosition", &VBAP::setListenerPosition, py::arg("x"), py::arg("y"), py::arg("z") )
     ;
-- 
2.43.0


From 552ab08a7b7878a442ca112c99ec688bcd73b050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:59 +0000
Subject: [PATCH 119/139] fix: check the sizes of the arrays a
 PanningMatrixParameter is constructed from

Too few time stamps or transition times were read beyond their end when the
parameter was used.
---
 src/libpanningdsp/panning_matrix_parameter.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/libpanningdsp/panning_matrix_parameter.cpp b/src/libpanningdsp/panning_matrix_parameter.cpp
index df8d315..f492843 100644
--- a/src/libpanningdsp/panning_matrix_parameter.cpp
+++ b/src/libpanningdsp/panning_matrix_parameter.cpp
@@ -102,6 +102,10 @@ PanningMatrixParameter::PanningMatrixParameter(visr::efl::BasicMatrix<SampleType
  , mTimeStamps( createCopy( timeStamps, gains.alignmentElements() ) )
  , mTransitionTimes( createCopy( transitionTimes, gains.alignmentElements() ) )
 {
+  if( (timeStamps.size() != gains.numberOfRows()) or (transitionTimes.size() != gains.numberOfRows()) )
+  {
+    throw std::invalid_argument( "PanningMatrixParameter: The number of time stamps and transition times must match the number of objects." );
+  }
   mGains.copy( gains );
 }
 
-- 
2.43.0


From a0686c3e65d0824000e1e848500de8913ffe5ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:40 +0000
Subject: [PATCH 120/139] fix: check the index of Position3D elements in Python

Elements beyond the coordinates were read and written; for the same reason
the iteration over a position never ended.
---
 src/python/rbbl/position_3d.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/python/rbbl/position_3d.cpp b/src/python/rbbl/position_3d.cpp
index 2975aa8..2037835 100644
--- a/src/python/rbbl/position_3d.cpp
+++ b/src/python/rbbl/position_3d.cpp
@@ -24,6 +24,17 @@ namespace py = pybind11;
 namespace 
 {
 
+  constexpr std::size_t cNumberOfCoordinates = 3;
+
+  /** Check an index passed from Python. */
+  void checkIndex( std::size_t idx )
+  {
+    if( idx >= cNumberOfCoordinates )
+    {
+      throw py::index_error( "Position3D: The index must be 0, 1, or 2." );
+    }
+  }
+
   template< typename Coordinate >
   void exportPosition3D( pybind11::module & m, char const * className )
   {
@@ -54,9 +65,10 @@ namespace
           );
         } )
       .def( "__getitem__", []( Position3D< Coordinate > const & pos, std::size_t idx )
-         { return pos[ idx ]; }, py::arg( "index" ) )
+         { checkIndex( idx ); return pos[ idx ]; }, py::arg( "index" ) )
       .def( "__setitem__", []( Position3D< Coordinate > & pos, std::size_t idx, Coordinate val )
-         { pos[ idx ] = val; }, py::arg( "index" ), py::arg( "value" ) )
+         { checkIndex( idx ); pos[ idx ] = val; }, py::arg( "index" ), py::arg( "value" ) )
+      .def( "__len__", []( Position3D< Coordinate > const & ) { return cNumberOfCoordinates; } )
       .def( "set", &Position3D< Coordinate >::set )
       .def( "set", []( Position3D< Coordinate > & self, 
          std::array< Coordinate, 3 > const & vec )
-- 
2.43.0


From efa174f1e852f636722fd2651ed9b2dd9b7cca33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:40 +0000
Subject: [PATCH 121/139] fix: correct the argument names of
 ListenerPosition.transform in Python

They were given in the opposite order of the arguments, so that the function
could not be called with named arguments.
---
 src/python/pml/listener_position.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/pml/listener_position.cpp b/src/python/pml/listener_position.cpp
index 1b1687f..4989755 100644
--- a/src/python/pml/listener_position.cpp
+++ b/src/python/pml/listener_position.cpp
@@ -100,7 +100,7 @@ void exportListenerPosition( pybind11::module & m)
       { self.translate( ListenerPosition::PositionType( pos[0], pos[1], pos[2] ) ); }, py::arg( "translationVector" ) )
     .def( "rotate", &ListenerPosition::rotate, py::arg( "rotationQuaternion" ) )
     .def( "rotateOrientation", &ListenerPosition::rotateOrientation, py::arg( "rotationQuaternion" ) )
-    .def( "transform", &ListenerPosition::transform,  py::arg( "translationVector" ), py::arg( "rotationQuaternion" ) )
+    .def( "transform", &ListenerPosition::transform, py::arg( "rotationQuaternion" ), py::arg( "translationVector" ) )
     .def("__str__", []( ListenerPosition const & pos )
          {
            std::stringstream desc;
-- 
2.43.0


From fcc269548b13fc82bfe4987e6ade0349ef2db4c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:22 +0000
Subject: [PATCH 122/139] fix: return one 1x1 matrix for spherical harmonics
 rotations of order 0

---
 .../packages/visr_bst/util/spherical_harmonics_rotation.py    | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/python/packages/visr_bst/util/spherical_harmonics_rotation.py b/src/python/packages/visr_bst/util/spherical_harmonics_rotation.py
index 1aac2a9..872ff39 100644
--- a/src/python/packages/visr_bst/util/spherical_harmonics_rotation.py
+++ b/src/python/packages/visr_bst/util/spherical_harmonics_rotation.py
@@ -8,7 +8,7 @@ Created on Sat Mar 17 16:59:20 2018
 import numpy as np
 
 def allSphericalHarmonicsRotationMatrices( order, R ):
-    allRs = [ np.asarray([1.0], dtype=R.dtype), R ]
+    allRs = [ np.asarray([[1.0]], dtype=R.dtype), R ][:order+1]
     for currOrder in range(2, order+1 ):
         allRs.append( sphericalHarmonicsRotationMatrix( currOrder, R, allRs[-1] ) )
     return allRs
@@ -40,7 +40,7 @@ def sphericalHarmonicsRotationMatrix( order, R1, Rminus1 = None ):
         Rotation matrix for the SHs of order 'order', dimension (2*order+1)x(2*order+1)
     """
     if order == 0:
-        return np.asarray( [1,0], dtype = R1.dtype )
+        return np.asarray( [[1.0]], dtype = R1.dtype )
     if order == 1:
         return R1
     if Rminus1 is None:
-- 
2.43.0


From 49d8d44745e64e59cb678509fb6e7c0b74ebbea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:22 +0000
Subject: [PATCH 123/139] fix: encode plane waves and ignore channels out of
 range in the HOA object encoder

---
 .../visr_bst/hoa_components/hoa_object_encoder.py   | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/python/packages/visr_bst/hoa_components/hoa_object_encoder.py b/src/python/packages/visr_bst/hoa_components/hoa_object_encoder.py
index 03ca0fb..77a8a9e 100644
--- a/src/python/packages/visr_bst/hoa_components/hoa_object_encoder.py
+++ b/src/python/packages/visr_bst/hoa_components/hoa_object_encoder.py
@@ -41,7 +41,7 @@ import objectmodel as om
 import rbbl
 
 # Helper functions contained in the
-from visr_bst.util import cart2sph
+from visr_bst.util import cart2sph, deg2rad, sph2cart
 from visr_bst.util import allSphHarmRealACN
 
 # Standard Python packages
@@ -124,7 +124,7 @@ class HoaObjectEncoder( visr.AtomicComponent ):
                     objIdx = objIndices[chIdx]
                     src = ov[objIdx]
                     if isinstance( src, om.PlaneWave ):
-                        sph = [src.azimuth, src.elevation, src.referenceDistance ]
+                        sph = [deg2rad( src.azimuth ), deg2rad( src.elevation ), src.referenceDistance ]
                     else:
                         sph = cart2sph( src.x, src.y, src.z )
                     pwCoeffs = allSphHarmRealACN( self.hoaOrder, np.pi/2-sph[1], sph[0], dtype = coeffOut.dtype )
@@ -134,12 +134,17 @@ class HoaObjectEncoder( visr.AtomicComponent ):
                 pos = np.zeros( (self.numberOfObjects,3), dtype=coeffOut.dtype )
                 pos[:,0] = 1.0 # Set unused sources to a valid direction.
                 for src in ov:
+                    if not isinstance( src, (om.PointSource, om.PlaneWave) ):
+                        continue
                     chIdx = src.channels[0]
-                    if chIdx > self.numberOfObjects:
+                    if chIdx >= self.numberOfObjects:
                         warnings.warn('The number of dynamically instantiated sound objects is more than the maximum number specified')
                         continue
                     levels[chIdx] = src.level
-                    pos[chIdx,:] = src.position
+                    if isinstance( src, om.PlaneWave ):
+                        pos[chIdx,:] = sph2cart( np.asarray( [deg2rad( src.azimuth ), deg2rad( src.elevation ), 1.0] ) )
+                    else:
+                        pos[chIdx,:] = src.position
                 sphPos = cart2sph( pos[:,0], pos[:,1], pos[:,2] )
                 shCoeffs = allSphHarmRealACN( self.hoaOrder, np.pi/2-sphPos[1,:], sphPos[0,:], dtype = coeffOut.dtype )
                 res = shCoeffs * levels[np.newaxis,:]
-- 
2.43.0


From 48544ef31da60f2b3f2a6becd59023c2b4023ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:35 +0000
Subject: [PATCH 124/139] fix: rotate HOA sound fields by the inverse of the
 head orientation

---
 .../visr_bst/hoa_components/hoa_coefficient_rotation.py   | 8 ++++----
 .../hoa_components/hoa_rotation_matrix_calculator.py      | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/python/packages/visr_bst/hoa_components/hoa_coefficient_rotation.py b/src/python/packages/visr_bst/hoa_components/hoa_coefficient_rotation.py
index f04b9a9..4b92c99 100644
--- a/src/python/packages/visr_bst/hoa_components/hoa_coefficient_rotation.py
+++ b/src/python/packages/visr_bst/hoa_components/hoa_coefficient_rotation.py
@@ -98,7 +98,7 @@ class HoaCoefficientRotation( visr.AtomicComponent ):
 
         if headOrientation is None:
             headOrientation = np.zeros( (3), np.float32 )
-        R1 = rotationMatrixReorderingACN( calcRotationMatrix( headOrientation ) )
+        R1 = rotationMatrixReorderingACN( calcRotationMatrix( headOrientation ).T )
         self.rotationMatrices = allSphericalHarmonicsRotationMatrices( self.hoaOrder, R1 )
 
     def process( self ):
@@ -107,9 +107,9 @@ class HoaCoefficientRotation( visr.AtomicComponent ):
         """
         if self.trackingInputProtocol.changed():
             head = self.trackingInputProtocol.data()
-            ypr = - np.array(head.orientationYPR, dtype = np.float32 ) # negative because we rotate the sound field in the opposite
-            # direction of the head orientation.
-            R1 = rotationMatrixReorderingACN( calcRotationMatrix(ypr) )
+            ypr = np.array(head.orientationYPR, dtype = np.float32 )
+            # Transposed (inverse) because we rotate the sound field in the opposite direction of the head orientation.
+            R1 = rotationMatrixReorderingACN( calcRotationMatrix(ypr).T )
             self.rotationMatrices = allSphericalHarmonicsRotationMatrices( self.hoaOrder, R1 )
             self.trackingInputProtocol.resetChanged()
 
diff --git a/src/python/packages/visr_bst/hoa_components/hoa_rotation_matrix_calculator.py b/src/python/packages/visr_bst/hoa_components/hoa_rotation_matrix_calculator.py
index ac8a5ed..f9c37c2 100644
--- a/src/python/packages/visr_bst/hoa_components/hoa_rotation_matrix_calculator.py
+++ b/src/python/packages/visr_bst/hoa_components/hoa_rotation_matrix_calculator.py
@@ -105,7 +105,7 @@ class HoaRotationMatrixCalculator( visr.AtomicComponent ):
             if initialOrientation.size < 3:
                 initialOrientation = np.concatenate( (initialOrientation,
                     np.zeros( 3-initialOrientation.size, dtype=np.float32) ) )
-        R1 = rotationMatrixReorderingACN( calcRotationMatrix( initialOrientation ) )
+        R1 = rotationMatrixReorderingACN( calcRotationMatrix( initialOrientation ).T )
         self.rotationMatrices = allSphericalHarmonicsRotationMatrices( self.hoaOrder, R1 )
 
     def process( self ):
@@ -114,9 +114,9 @@ class HoaRotationMatrixCalculator( visr.AtomicComponent ):
         """
         if (self.orientationInputProtocol is not None ) and self.orientationInputProtocol.changed():
             head = self.orientationInputProtocol.data()
-            ypr = - np.array(head.orientationYPR, dtype = np.float32 ) # negative because we rotate the sound field in the opposite
-            # direction of the head orientation.
-            R1 = rotationMatrixReorderingACN( calcRotationMatrix(ypr) )
+            ypr = np.array(head.orientationYPR, dtype = np.float32 )
+            # Transposed (inverse) because we rotate the sound field in the opposite direction of the head orientation.
+            R1 = rotationMatrixReorderingACN( calcRotationMatrix(ypr).T )
             self.rotationMatrices = allSphericalHarmonicsRotationMatrices( self.hoaOrder, R1 )
             self.orientationInputProtocol.resetChanged()
 
-- 
2.43.0


From 3d4377361b568d1e2b92e528c77e7839f3bf6c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:50 +0000
Subject: [PATCH 125/139] fix: use the inverse head rotation in
 DynamicHrirController for all orientations

---
 .../packages/visr_bst/controllers/dynamic_hrir_controller.py  | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/python/packages/visr_bst/controllers/dynamic_hrir_controller.py b/src/python/packages/visr_bst/controllers/dynamic_hrir_controller.py
index d5226bd..7930e15 100644
--- a/src/python/packages/visr_bst/controllers/dynamic_hrir_controller.py
+++ b/src/python/packages/visr_bst/controllers/dynamic_hrir_controller.py
@@ -208,8 +208,8 @@ class DynamicHrirController( visr.AtomicComponent ):
         if self.useHeadTracking and self.trackingInputProtocol.changed():
             htrack = self.trackingInputProtocol.data()
             ypr = htrack.orientationYPR
-            # np.negative is to obtain the opposite rotation of the head rotation, i.e. the inverse matrix of head rotation matrix
-            self.rotationMatrix = np.asarray( calcRotationMatrix(np.negative(ypr) ), dtype=np.float32 )
+            # Transpose to obtain the opposite rotation of the head rotation, i.e. the inverse matrix of head rotation matrix
+            self.rotationMatrix = np.asarray( calcRotationMatrix( np.asarray(ypr) ).T, dtype=np.float32 )
             self.trackingInputProtocol.resetChanged()
 
         if self.objectInputProtocol.changed():
-- 
2.43.0


From 1c790ee9df337a6fff8e4c6ece70b68182c7ffe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:50 +0000
Subject: [PATCH 126/139] fix: normalise the interpolation weights of
 DynamicHrirController

---
 .../packages/visr_bst/controllers/dynamic_hrir_controller.py    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/packages/visr_bst/controllers/dynamic_hrir_controller.py b/src/python/packages/visr_bst/controllers/dynamic_hrir_controller.py
index 7930e15..d0beb8e 100644
--- a/src/python/packages/visr_bst/controllers/dynamic_hrir_controller.py
+++ b/src/python/packages/visr_bst/controllers/dynamic_hrir_controller.py
@@ -260,7 +260,7 @@ class DynamicHrirController( visr.AtomicComponent ):
             #Select the gains for the matching triplets.
             unNormedGains = allGains[matchingTriplet,:,range(0,self.numberOfObjects)]
             gainNorm = np.linalg.norm( unNormedGains, ord=1, axis = -1 )
-            gains = np.repeat( gainNorm[:,np.newaxis], 3, axis=-1 ) * unNormedGains
+            gains = unNormedGains / gainNorm[:,np.newaxis]
         else: # No interpolation
             dotprod = self.hrirPos @ translatedSourcePos.T
             #make it a 2D array
-- 
2.43.0


From 76c0db40db397b8ab18ca6642d90e2992e7c4843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:50 +0000
Subject: [PATCH 127/139] fix: use the same sense of rotation for initial and
 tracked orientations in VirtualLoudspeakerController

---
 .../visr_bst/controllers/virtual_loudspeaker_controller.py  | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/python/packages/visr_bst/controllers/virtual_loudspeaker_controller.py b/src/python/packages/visr_bst/controllers/virtual_loudspeaker_controller.py
index 0f08ba0..d3dc4b0 100644
--- a/src/python/packages/visr_bst/controllers/virtual_loudspeaker_controller.py
+++ b/src/python/packages/visr_bst/controllers/virtual_loudspeaker_controller.py
@@ -186,7 +186,7 @@ class VirtualLoudspeakerController( visr.AtomicComponent ):
         if self.useHeadTracking and self.trackingInputProtocol.changed():
             htrack = self.trackingInputProtocol.data()
             ypr = np.asarray(htrack.orientationYPR, dtype=self.hrirPos.dtype)
-            self.headDir = orientationToDirectionVector( -ypr, self.hrirPos.shape[-1] )
+            self.headDir = orientationToDirectionVector( ypr, self.hrirPos.shape[-1] )
             self.trackingInputProtocol.resetChanged()
 
         # Obtain access to the delay output
@@ -253,7 +253,7 @@ class VirtualLoudspeakerController( visr.AtomicComponent ):
 def orientationToDirectionVector( ypr, dimension ):
     """ Local function to convert an yaw-pitch-roll vector into a direction vector. """
     if ypr.shape[-1] < 3:
-        ypr = np.concatenate( ypr, np.zeros( 3-ypr.shape[-1], dtype=ypr.dtype ))
-    rotMtx = calcRotationMatrix( - ypr )
+        ypr = np.concatenate( (ypr, np.zeros( 3-ypr.shape[-1], dtype=ypr.dtype )) )
+    rotMtx = calcRotationMatrix( ypr )
     dirVec = np.dot( np.array( [1.0, 0.0, 0.0], dtype=ypr.dtype), rotMtx )
     return dirVec[:dimension]
-- 
2.43.0


From a81b5a4378f17fc2ac1be778d7f44906ac07f169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:08 +0000
Subject: [PATCH 128/139] fix: send interpolation parameters also for
 nearest-neighbour selection in VirtualLoudspeakerController

---
 .../virtual_loudspeaker_controller.py         | 20 +++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/python/packages/visr_bst/controllers/virtual_loudspeaker_controller.py b/src/python/packages/visr_bst/controllers/virtual_loudspeaker_controller.py
index d3dc4b0..4652c71 100644
--- a/src/python/packages/visr_bst/controllers/virtual_loudspeaker_controller.py
+++ b/src/python/packages/visr_bst/controllers/virtual_loudspeaker_controller.py
@@ -235,12 +235,20 @@ class VirtualLoudspeakerController( visr.AtomicComponent ):
             hrirIndex = np.argmax( dotprod, axis = 0 )
             if self.lastHrirIndex != hrirIndex:
                 for chIdx in range(0,self.numberOfLoudspeakers):
-                    leftCmd  = pml.IndexedVectorFloat( chIdx,
-                                                      self.hrirs[hrirIndex,0,chIdx,:])
-                    rightCmd = pml.IndexedVectorFloat( chIdx+self.numberOfLoudspeakers,
-                                                      self.hrirs[hrirIndex,1,chIdx,:])
-                    self.filterOutputProtocol.enqueue( leftCmd )
-                    self.filterOutputProtocol.enqueue( rightCmd )
+                    if self.interpolationOutputProtocol is not None:
+                        leftIndex = int((hrirIndex*2+0)*self.numberOfLoudspeakers + chIdx)
+                        rightIndex = int((hrirIndex*2+1)*self.numberOfLoudspeakers + chIdx)
+                        self.interpolationOutputProtocol.enqueue(
+                            pml.InterpolationParameter( chIdx, [leftIndex], [1.0] ) )
+                        self.interpolationOutputProtocol.enqueue(
+                            pml.InterpolationParameter( chIdx+self.numberOfLoudspeakers, [rightIndex], [1.0] ) )
+                    else:
+                        leftCmd  = pml.IndexedVectorFloat( chIdx,
+                                                          self.hrirs[hrirIndex,0,chIdx,:])
+                        rightCmd = pml.IndexedVectorFloat( chIdx+self.numberOfLoudspeakers,
+                                                          self.hrirs[hrirIndex,1,chIdx,:])
+                        self.filterOutputProtocol.enqueue( leftCmd )
+                        self.filterOutputProtocol.enqueue( rightCmd )
 
                 if self.dynamicITD:
                     delayVec[0:self.numberOfLoudspeakers] = self.dynamicDelays[hrirIndex,0,:]
-- 
2.43.0


From 5c617ba07ab12d7ded0a070098ed8313395c81e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:50 +0000
Subject: [PATCH 129/139] fix: accept initial head orientations of every type
 in VirtualLoudspeakerController

---
 .../visr_bst/controllers/virtual_loudspeaker_controller.py      | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/packages/visr_bst/controllers/virtual_loudspeaker_controller.py b/src/python/packages/visr_bst/controllers/virtual_loudspeaker_controller.py
index 4652c71..20a70c7 100644
--- a/src/python/packages/visr_bst/controllers/virtual_loudspeaker_controller.py
+++ b/src/python/packages/visr_bst/controllers/virtual_loudspeaker_controller.py
@@ -178,7 +178,7 @@ class VirtualLoudspeakerController( visr.AtomicComponent ):
         if headOrientation is None:
             headOrientation = np.array( [0.0, 0.0, 0.0 ], self.hrirPos.dtype )
         else:
-            headOrientation = np.asarray( headOrientation )
+            headOrientation = np.asarray( headOrientation, dtype = self.hrirPos.dtype )
         self.headDir = orientationToDirectionVector( headOrientation, self.hrirPos.shape[-1] )
 
     def process( self ):
-- 
2.43.0


From cf2c6d84f8656d1c4844096f7b3a8bf4c3083493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:49 +0000
Subject: [PATCH 130/139] fix: ignore objects of other types and channels out
 of range in DynamicHrirController

---
 .../controllers/dynamic_hrir_controller.py    | 31 ++++++++++---------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/src/python/packages/visr_bst/controllers/dynamic_hrir_controller.py b/src/python/packages/visr_bst/controllers/dynamic_hrir_controller.py
index d0beb8e..4fc87f6 100644
--- a/src/python/packages/visr_bst/controllers/dynamic_hrir_controller.py
+++ b/src/python/packages/visr_bst/controllers/dynamic_hrir_controller.py
@@ -229,23 +229,24 @@ class DynamicHrirController( visr.AtomicComponent ):
                     self.sourcePos[chIdx,:] = ov[objIdx].position
                     self.levels[chIdx] = ov[objIdx].level
             else:
-                for index,src in enumerate(ov):
-                    if index < self.numberOfObjects :
-                        if isinstance( src, om.PointSource ):
-                            pos = np.asarray(src.position, dtype=np.float32 )
-                        elif isinstance( src, om.PlaneWave ):
-                            az = deg2rad( src.azimuth )
-                            el = deg2rad( src.elevation )
-                            r = src.referenceDistance
-                            sph = np.asarray([az,el,r])
-                            pos = np.asarray(sph2cart( sph ))
-                        posNormed = 1.0/np.sqrt(np.sum(np.square(pos))) * pos
-                        ch = src.channels[0]
-                        self.sourcePos[ch,:] = posNormed
-                        self.levels[ch] = src.level
+                for src in ov:
+                    if isinstance( src, om.PointSource ):
+                        pos = np.asarray(src.position, dtype=np.float32 )
+                    elif isinstance( src, om.PlaneWave ):
+                        az = deg2rad( src.azimuth )
+                        el = deg2rad( src.elevation )
+                        r = src.referenceDistance
+                        sph = np.asarray([az,el,r])
+                        pos = np.asarray(sph2cart( sph ))
                     else:
+                        continue # Other object types are not rendered.
+                    ch = src.channels[0]
+                    if ch >= self.numberOfObjects:
                         warnings.warn('The number of dynamically instantiated sound objects is more than the maximum number specified')
-                        break
+                        continue
+                    posNormed = 1.0/np.sqrt(np.sum(np.square(pos))) * pos
+                    self.sourcePos[ch,:] = posNormed
+                    self.levels[ch] = src.level
             self.objectInputProtocol.resetChanged()
 
         # Computation performed each iteration
-- 
2.43.0


From 689ec7bfe3caab8c3f797ba5dbdbae364b42ad82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:49 +0000
Subject: [PATCH 131/139] fix: send delays only when they are set in
 VirtualLoudspeakerController

---
 .../visr_bst/controllers/virtual_loudspeaker_controller.py    | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/python/packages/visr_bst/controllers/virtual_loudspeaker_controller.py b/src/python/packages/visr_bst/controllers/virtual_loudspeaker_controller.py
index 20a70c7..de02de3 100644
--- a/src/python/packages/visr_bst/controllers/virtual_loudspeaker_controller.py
+++ b/src/python/packages/visr_bst/controllers/virtual_loudspeaker_controller.py
@@ -229,6 +229,7 @@ class VirtualLoudspeakerController( visr.AtomicComponent ):
                 delays = np.dot( np.moveaxis(self.dynamicDelays[indices,:],0,-1), normedGains)
                 delayVec[0:self.numberOfLoudspeakers] = delays[0,:]
                 delayVec[self.numberOfLoudspeakers:] = delays[1,:]
+                self.delayOutputProtocol.swapBuffers()
 
         else:  # hrirInterpolation == False
             dotprod = self.hrirPos @ self.headDir.T
@@ -253,10 +254,9 @@ class VirtualLoudspeakerController( visr.AtomicComponent ):
                 if self.dynamicITD:
                     delayVec[0:self.numberOfLoudspeakers] = self.dynamicDelays[hrirIndex,0,:]
                     delayVec[self.numberOfLoudspeakers:] = self.dynamicDelays[hrirIndex,1,:]
+                    self.delayOutputProtocol.swapBuffers()
 
                 self.lastHrirIndex = hrirIndex
-        if self.dynamicITD:
-            self.delayOutputProtocol.swapBuffers()
 
 def orientationToDirectionVector( ypr, dimension ):
     """ Local function to convert an yaw-pitch-roll vector into a direction vector. """
-- 
2.43.0


From 117127e77d4f063b943c32ed7ef634f6448ba9db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:24 +0000
Subject: [PATCH 132/139] fix: provide initial gains for both ears of the
 static late reverberation

---
 .../packages/visr_bst/renderers/virtual_loudspeaker_renderer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/packages/visr_bst/renderers/virtual_loudspeaker_renderer.py b/src/python/packages/visr_bst/renderers/virtual_loudspeaker_renderer.py
index 5e9b1b4..ddf4b8e 100644
--- a/src/python/packages/visr_bst/renderers/virtual_loudspeaker_renderer.py
+++ b/src/python/packages/visr_bst/renderers/virtual_loudspeaker_renderer.py
@@ -313,7 +313,7 @@ class VirtualLoudspeakerRenderer( visr.CompositeComponent ):
                                                     2*numberOfLoudspeakers,
                                                     interpolationSteps=context.period,
                                                     interpolationType='nearestSample',
-                                                    initialGain = np.ones( (numberOfLoudspeakers), dtype=np.float32 ),
+                                                    initialGain = np.ones( (2*numberOfLoudspeakers), dtype=np.float32 ),
                                                     initialDelay = flatDelays )
             lateFilterRouting = rbbl.FilterRoutingList(
                     [rbbl.FilterRouting(i,
-- 
2.43.0


From 1a18f089f7970cd5cd770a6aa2345edbfe6b6174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:24 +0000
Subject: [PATCH 133/139] fix: correct the name of the filter bank in
 HoaBinauralRenderer

---
 src/python/packages/visr_bst/renderers/hoa_binaural_renderer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/packages/visr_bst/renderers/hoa_binaural_renderer.py b/src/python/packages/visr_bst/renderers/hoa_binaural_renderer.py
index 79eaab9..7158440 100644
--- a/src/python/packages/visr_bst/renderers/hoa_binaural_renderer.py
+++ b/src/python/packages/visr_bst/renderers/hoa_binaural_renderer.py
@@ -178,6 +178,6 @@ class HoaBinauralRenderer( visr.CompositeComponent ):
                 self.parameterConnection( self.trackingInput,
                                          self.rotationCalculator.parameterPort("orientation") )
         else:
-            self.audioConnection( self.hoaSignalInput, self.binauralFilterbank.audioPort("in") )
+            self.audioConnection( self.hoaSignalInput, self.binauralFilterBank.audioPort("in") )
 
         self.audioConnection( self.binauralFilterBank.audioPort("out"), self.binauralOutput )
-- 
2.43.0


From 57cd87d37d667bafffbff49740d50238ea85514c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:46 +0000
Subject: [PATCH 134/139] fix: apply the HOA rotation matrices in the direction
 SparseGainMatrix expects

---
 .../hoa_components/hoa_rotation_matrix_calculator.py        | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/python/packages/visr_bst/hoa_components/hoa_rotation_matrix_calculator.py b/src/python/packages/visr_bst/hoa_components/hoa_rotation_matrix_calculator.py
index f9c37c2..b98b979 100644
--- a/src/python/packages/visr_bst/hoa_components/hoa_rotation_matrix_calculator.py
+++ b/src/python/packages/visr_bst/hoa_components/hoa_rotation_matrix_calculator.py
@@ -105,7 +105,7 @@ class HoaRotationMatrixCalculator( visr.AtomicComponent ):
             if initialOrientation.size < 3:
                 initialOrientation = np.concatenate( (initialOrientation,
                     np.zeros( 3-initialOrientation.size, dtype=np.float32) ) )
-        R1 = rotationMatrixReorderingACN( calcRotationMatrix( initialOrientation ).T )
+        R1 = rotationMatrixReorderingACN( calcRotationMatrix( initialOrientation ) )
         self.rotationMatrices = allSphericalHarmonicsRotationMatrices( self.hoaOrder, R1 )
 
     def process( self ):
@@ -115,8 +115,8 @@ class HoaRotationMatrixCalculator( visr.AtomicComponent ):
         if (self.orientationInputProtocol is not None ) and self.orientationInputProtocol.changed():
             head = self.orientationInputProtocol.data()
             ypr = np.array(head.orientationYPR, dtype = np.float32 )
-            # Transposed (inverse) because we rotate the sound field in the opposite direction of the head orientation.
-            R1 = rotationMatrixReorderingACN( calcRotationMatrix(ypr).T )
+            # The resulting SH matrices rotate the sound field in the opposite direction of the head orientation.
+            R1 = rotationMatrixReorderingACN( calcRotationMatrix( ypr ) )
             self.rotationMatrices = allSphericalHarmonicsRotationMatrices( self.hoaOrder, R1 )
             self.orientationInputProtocol.resetChanged()
 
-- 
2.43.0


From d31bf5928cbda4e5a59912fff004596adadf5509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:20 +0000
Subject: [PATCH 135/139] fix: apply the head orientation given to
 VirtualLoudspeakerRenderer

---
 .../packages/visr_bst/renderers/virtual_loudspeaker_renderer.py  | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/python/packages/visr_bst/renderers/virtual_loudspeaker_renderer.py b/src/python/packages/visr_bst/renderers/virtual_loudspeaker_renderer.py
index ddf4b8e..341089d 100644
--- a/src/python/packages/visr_bst/renderers/virtual_loudspeaker_renderer.py
+++ b/src/python/packages/visr_bst/renderers/virtual_loudspeaker_renderer.py
@@ -161,6 +161,7 @@ class VirtualLoudspeakerRenderer( visr.CompositeComponent ):
         self.virtualLoudspeakerController = VirtualLoudspeakerController( context, "VirtualLoudspeakerController", self,
                                                                   hrirPositions=hrirPositions,
                                                                   hrirData = hrirData,
+                                                                  headOrientation = headOrientation,
                                                                   headTracking = headTracking,
                                                                   dynamicITD = dynamicITD,
                                                                   hrirInterpolation = hrirInterpolation,
-- 
2.43.0


From d2779aeb5a4410f3d81127007d7345d17538ec58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:20 +0000
Subject: [PATCH 136/139] fix: let VirtualLoudspeakerRenderer combine dynamic
 delays with the interpolating convolver

---
 .../packages/visr_bst/renderers/virtual_loudspeaker_renderer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/packages/visr_bst/renderers/virtual_loudspeaker_renderer.py b/src/python/packages/visr_bst/renderers/virtual_loudspeaker_renderer.py
index 341089d..b6c943f 100644
--- a/src/python/packages/visr_bst/renderers/virtual_loudspeaker_renderer.py
+++ b/src/python/packages/visr_bst/renderers/virtual_loudspeaker_renderer.py
@@ -212,7 +212,7 @@ class VirtualLoudspeakerRenderer( visr.CompositeComponent ):
                                                  transitionSamples=interpolationSteps,
                                                  filters = filterReshaped,
                                                  routings=filterRouting,
-                                                 controlInputs=rcl.InterpolatingFirFilterMatrix.ControlPortConfig.Filters,
+                                                 controlInputs=rcl.InterpolatingFirFilterMatrix.ControlPortConfig.Interpolants,
                                                  fftImplementation=fftImplementation
                                                  )
 
-- 
2.43.0


From a536da952a6883a7e826e36c5047afcb844a1a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:20 +0000
Subject: [PATCH 137/139] fix: choose the number of interpolants from the
 measurement positions in VirtualLoudspeakerRenderer

---
 .../visr_bst/renderers/virtual_loudspeaker_renderer.py    | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/python/packages/visr_bst/renderers/virtual_loudspeaker_renderer.py b/src/python/packages/visr_bst/renderers/virtual_loudspeaker_renderer.py
index b6c943f..c57fc10 100644
--- a/src/python/packages/visr_bst/renderers/virtual_loudspeaker_renderer.py
+++ b/src/python/packages/visr_bst/renderers/virtual_loudspeaker_renderer.py
@@ -179,6 +179,10 @@ class VirtualLoudspeakerRenderer( visr.CompositeComponent ):
 
         firLength = hrirData.shape[-1]
 
+        # Used if the interpolating convolver is selected: one filter without interpolation, two
+        # neighbouring filters for horizontal and three for general measurement positions.
+        numberOfInterpolants = hrirPositions.shape[1] if hrirInterpolation else 1
+
         if dynamicITD:
             self.delayVector = rcl.DelayVector( context, "delayVector", self,
                                                numberOfLoudspeakers*2, interpolationType="lagrangeOrder3", initialDelay=0,
@@ -208,7 +212,7 @@ class VirtualLoudspeakerRenderer( visr.CompositeComponent ):
                                                  maxFilters=numFilters,
                                                  filterLength=firLength,
                                                  maxRoutings=2*numberOfLoudspeakers,
-                                                 numberOfInterpolants=2, # TODO: Find out from
+                                                 numberOfInterpolants=numberOfInterpolants,
                                                  transitionSamples=interpolationSteps,
                                                  filters = filterReshaped,
                                                  routings=filterRouting,
@@ -262,7 +266,7 @@ class VirtualLoudspeakerRenderer( visr.CompositeComponent ):
                                                  maxFilters=numFilters,
                                                  filterLength=firLength,
                                                  maxRoutings=2*numberOfLoudspeakers,
-                                                 numberOfInterpolants=2, # TODO: Find out from
+                                                 numberOfInterpolants=numberOfInterpolants,
                                                  transitionSamples=interpolationSteps,
                                                  filters = filterReshaped,
                                                  routings=filterRouting,
-- 
2.43.0


From e2a2c9e8cc8d473ad89d5156d4c886fe587bf421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:13 +0000
Subject: [PATCH 138/139] fix: apply the head orientation given to
 DynamicHrirRenderer

---
 .../visr_bst/controllers/dynamic_hrir_controller.py      | 9 ++++++++-
 .../packages/visr_bst/renderers/dynamic_hrir_renderer.py | 3 ++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/python/packages/visr_bst/controllers/dynamic_hrir_controller.py b/src/python/packages/visr_bst/controllers/dynamic_hrir_controller.py
index 4fc87f6..017c180 100644
--- a/src/python/packages/visr_bst/controllers/dynamic_hrir_controller.py
+++ b/src/python/packages/visr_bst/controllers/dynamic_hrir_controller.py
@@ -66,6 +66,7 @@ class DynamicHrirController( visr.AtomicComponent ):
                   hrirInterpolation = False, # HRTF interpolation selection: False: Nearest neighbour, True: Barycentric (3-point) interpolation
                   channelAllocation = False, # Whether to allocate object channels dynamically (not tested yet)
                   hrirDelays = None,         # Matrix of delays associated with filter dataset. Dimension: # filters * 2
+                  headOrientation = None,    # Static or initial head orientation (yaw, pitch, roll), optional.
                   ):
         """
         Constructor.
@@ -99,6 +100,8 @@ class DynamicHrirController( visr.AtomicComponent ):
         hrirDelays: numpy.ndarray
             Matrix of delays associated with filter dataset. Dimension: # filters * 2. Default None means there are no separate
             delays, i.e., they must be contained in the HRIR data.
+        headOrientation: array-like (2- or 3-element) or NoneType
+            The static head orientation or, if head tracking is used, the initial orientation. Given as yaw, pitch, roll.
         """
         # Call base class (AtomicComponent) constructor
         super( DynamicHrirController, self ).__init__( context, name, parent )
@@ -121,7 +124,11 @@ class DynamicHrirController( visr.AtomicComponent ):
         else:
             self.useHeadTracking = False
             self.trackingInputProtocol = None # Flag that head tracking is not used.
-        self.rotationMatrix = np.identity( 3, dtype=np.float32 )
+        ypr = np.zeros( 3, dtype=np.float32 )
+        if headOrientation is not None:
+            ypr[:len(headOrientation)] = headOrientation
+        # Transpose to obtain the inverse of the head rotation matrix
+        self.rotationMatrix = np.asarray( calcRotationMatrix( ypr ).T, dtype=np.float32 )
 
         self.interpolatingConvolver = interpolatingConvolver
         if interpolatingConvolver:
diff --git a/src/python/packages/visr_bst/renderers/dynamic_hrir_renderer.py b/src/python/packages/visr_bst/renderers/dynamic_hrir_renderer.py
index c321794..d4b5fec 100644
--- a/src/python/packages/visr_bst/renderers/dynamic_hrir_renderer.py
+++ b/src/python/packages/visr_bst/renderers/dynamic_hrir_renderer.py
@@ -155,7 +155,8 @@ class DynamicHrirRenderer( visr.CompositeComponent ):
                                                                   dynamicILD = dynamicILD,
                                                                   hrirInterpolation = hrirInterpolation,
                                                                   interpolatingConvolver = interpolatingConvolver,
-                                                                  hrirDelays = hrirDelays
+                                                                  hrirDelays = hrirDelays,
+                                                                  headOrientation = headOrientation
                                                                   )
 
         self.parameterConnection( self.objectVectorInput, self.dynamicHrirController.parameterPort("objectVector"))
-- 
2.43.0


From 1d96cf6aa77f222f56fd5bf6d6e4807a063849d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:13 +0000
Subject: [PATCH 139/139] fix: apply the head orientation given to
 HoaObjectToBinauralRenderer

---
 .../hoa_coefficient_rotation.py               | 27 ++++++++++++-------
 .../hoa_object_to_binaural_renderer.py        |  8 ++++--
 2 files changed, 23 insertions(+), 12 deletions(-)

diff --git a/src/python/packages/visr_bst/hoa_components/hoa_coefficient_rotation.py b/src/python/packages/visr_bst/hoa_components/hoa_coefficient_rotation.py
index 4b92c99..3ec5619 100644
--- a/src/python/packages/visr_bst/hoa_components/hoa_coefficient_rotation.py
+++ b/src/python/packages/visr_bst/hoa_components/hoa_coefficient_rotation.py
@@ -51,7 +51,8 @@ class HoaCoefficientRotation( visr.AtomicComponent ):
                   numberOfObjects,
                   hoaOrder,
                   dynamicUpdates = False,
-                  headOrientation = None
+                  headOrientation = None,
+                  headTracking = True
                   ):
         """
         Constructor.
@@ -70,6 +71,8 @@ class HoaCoefficientRotation( visr.AtomicComponent ):
             The order of the spherical harmonics. Defines the number of rows of the processed matrices ((hoaOrder+1)^2)
         headOrientation: array-like (2- or 3- element) or NoneType
             The initial head rotation or the static head orientation if dynamic updates are deactivated. Given as yaw, pitch, roll.
+        headTracking: bool
+            Whether the orientation is updated at runtime. If True, a parameter input "tracking" is instantiated.
         """
         # Call base class (AtomicComponent) constructor
         super( HoaCoefficientRotation, self ).__init__( context, name, parent )
@@ -91,21 +94,25 @@ class HoaCoefficientRotation( visr.AtomicComponent ):
         self.coefficientOutputProtocol = self.coefficientOutput.protocolOutput()
 
         # Instantiate the head tracker input.
-        self.trackingInput = visr.ParameterInput( "tracking", self, pml.ListenerPosition.staticType,
-                                                  pml.DoubleBufferingProtocol.staticType,
-                                                  pml.EmptyParameterConfig() )
-        self.trackingInputProtocol = self.trackingInput.protocolInput()
-
-        if headOrientation is None:
-            headOrientation = np.zeros( (3), np.float32 )
-        R1 = rotationMatrixReorderingACN( calcRotationMatrix( headOrientation ).T )
+        if headTracking:
+            self.trackingInput = visr.ParameterInput( "tracking", self, pml.ListenerPosition.staticType,
+                                                      pml.DoubleBufferingProtocol.staticType,
+                                                      pml.EmptyParameterConfig() )
+            self.trackingInputProtocol = self.trackingInput.protocolInput()
+        else:
+            self.trackingInputProtocol = None
+
+        ypr = np.zeros( 3, np.float32 )
+        if headOrientation is not None:
+            ypr[:len(headOrientation)] = headOrientation
+        R1 = rotationMatrixReorderingACN( calcRotationMatrix( ypr ).T )
         self.rotationMatrices = allSphericalHarmonicsRotationMatrices( self.hoaOrder, R1 )
 
     def process( self ):
         """
         Processing function, called from the runtime system in every iteration of the signal flow.
         """
-        if self.trackingInputProtocol.changed():
+        if self.trackingInputProtocol is not None and self.trackingInputProtocol.changed():
             head = self.trackingInputProtocol.data()
             ypr = np.array(head.orientationYPR, dtype = np.float32 )
             # Transposed (inverse) because we rotate the sound field in the opposite direction of the head orientation.
diff --git a/src/python/packages/visr_bst/renderers/hoa_object_to_binaural_renderer.py b/src/python/packages/visr_bst/renderers/hoa_object_to_binaural_renderer.py
index 5545dca..d280bd4 100644
--- a/src/python/packages/visr_bst/renderers/hoa_object_to_binaural_renderer.py
+++ b/src/python/packages/visr_bst/renderers/hoa_object_to_binaural_renderer.py
@@ -166,10 +166,14 @@ class HoaObjectToBinauralRenderer( visr.CompositeComponent ):
             self.trackingInput = visr.ParameterInput( "tracking", self, pml.ListenerPosition.staticType,
                                               pml.DoubleBufferingProtocol.staticType,
                                               pml.EmptyParameterConfig() )
+        if headTracking or headOrientation is not None:
             self.coefficientRotator = HoaCoefficientRotation( context, 'coefficientRotator', self,
                                                               numberOfObjects = numberOfObjects,
-                                                              hoaOrder = maxHoaOrder)
-            self.parameterConnection( self.trackingInput, self.coefficientRotator.parameterPort("tracking") )
+                                                              hoaOrder = maxHoaOrder,
+                                                              headOrientation = headOrientation,
+                                                              headTracking = headTracking )
+            if headTracking:
+                self.parameterConnection( self.trackingInput, self.coefficientRotator.parameterPort("tracking") )
             self.parameterConnection( self.objectEncoder.parameterPort("coefficientOutput"),
                                      self.coefficientRotator.parameterPort("coefficientInput") )
             self.parameterConnection( self.coefficientRotator.parameterPort("coefficientOutput"),
-- 
2.43.0

