From ff50eeba55c3e0a7396fa89f8ac829721263c82e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:20 +0000
Subject: [PATCH 01/35] fix: prepare automation envelopes with the actual
 sample rate

Envelope::prepare() was never called by the hosts, so envelope timing was
only correct at 44100 Hz.
---
 include/dsp/hart_dsp.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/dsp/hart_dsp.hpp b/include/dsp/hart_dsp.hpp
index 8608d93..787da2b 100644
--- a/include/dsp/hart_dsp.hpp
+++ b/include/dsp/hart_dsp.hpp
@@ -230,6 +230,7 @@ public:
         {
             const int paramId = item.first;
             m_envelopeBuffers.emplace (paramId, std::vector<double> (maxBlockSizeFrames));
+            item.second->prepare (sampleRateHz, maxBlockSizeFrames);
         }
 
         hassert (m_envelopes.size() == m_envelopeBuffers.size());
-- 
2.43.0


From 31c97d16615a539fcdcc4195188e63d9688da6f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:20 +0000
Subject: [PATCH 02/35] fix: restart automation envelopes when a host resets a
 DSP

A re-used (or copied after use) DSP kept playing its envelopes from where the
previous run had stopped, and SegmentedEnvelope::reset() did not restore the
starting point of its first segment.
---
 include/dsp/hart_dsp.hpp                     | 11 +++++++++++
 include/envelopes/hart_segmentedenvelope.hpp |  1 +
 include/hart_process_audio.hpp               |  2 +-
 include/signals/hart_signal.hpp              |  2 +-
 4 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/include/dsp/hart_dsp.hpp b/include/dsp/hart_dsp.hpp
index 787da2b..d3b6638 100644
--- a/include/dsp/hart_dsp.hpp
+++ b/include/dsp/hart_dsp.hpp
@@ -251,6 +251,17 @@ public:
         prepare (sampleRateHz, numInputChannels, numOutputChannels, maxBlockSizeFrames);
     }
 
+    /// @brief Resets all the attached envelopes and the effect itself to initial state
+    /// @details This method is intended to be called by DSP hosts like @ref hart::AudioTestBuilder or @ref hart::Signal.
+    /// @attention If you're not making a custom host, you probably don't need to call this method.
+    void resetWithEnvelopes()
+    {
+        for (auto& item : m_envelopes)
+            item.second->reset();
+
+        reset();
+    }
+
     /// @brief Renders all the automation envelopes and processes the audio
     /// @details This method is intended to be called by DSP hosts like @ref hart::AudioTestBuilder @ref hart::Signal.
     /// If you're making something that owns an instance of a Signal and needs it to generate audio,
diff --git a/include/envelopes/hart_segmentedenvelope.hpp b/include/envelopes/hart_segmentedenvelope.hpp
index 0e56502..9aed5b1 100644
--- a/include/envelopes/hart_segmentedenvelope.hpp
+++ b/include/envelopes/hart_segmentedenvelope.hpp
@@ -62,6 +62,7 @@ public:
     {
         m_currentTimeSeconds = 0.0;
         m_currentSegmentIndex = 0;
+        m_beginValue = m_resetValue;
         m_currentValue = m_resetValue;
     }
 
diff --git a/include/hart_process_audio.hpp b/include/hart_process_audio.hpp
index 162b0dc..83b973f 100644
--- a/include/hart_process_audio.hpp
+++ b/include/hart_process_audio.hpp
@@ -352,7 +352,7 @@ public:
         }
 
         // TODO: Ckeck supportsChannelLayout() here
-        m_processor->reset();
+        m_processor->resetWithEnvelopes();
         m_processor->prepareWithEnvelopes (m_sampleRateHz, m_numInputChannels, m_numOutputChannels, m_blockSizeFrames);
 
         for (const ParamValue& paramValue : paramValues)
diff --git a/include/signals/hart_signal.hpp b/include/signals/hart_signal.hpp
index f36a981..33f7b16 100644
--- a/include/signals/hart_signal.hpp
+++ b/include/signals/hart_signal.hpp
@@ -236,7 +236,7 @@ public:
         reset();
 
         for (auto& dsp : dspChain)
-            dsp->reset();
+            dsp->resetWithEnvelopes();
     }
 
     /// @brief Makes a text representation of this signal and its entire signal chain for test failure outputs.
-- 
2.43.0


From 2e8708fa4a02e9bdd437f2af10e19ad661d29326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:20 +0000
Subject: [PATCH 03/35] fix: make the last envelope attached to a param ID win

withEnvelope() documents that repeated calls for the same ID discard the
previous envelope, but emplace() kept the first one. The rvalue overload did
not even compile, as it tried to instantiate the abstract Envelope.
---
 include/dsp/hart_dsp.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/dsp/hart_dsp.hpp b/include/dsp/hart_dsp.hpp
index d3b6638..2285806 100644
--- a/include/dsp/hart_dsp.hpp
+++ b/include/dsp/hart_dsp.hpp
@@ -185,7 +185,8 @@ public:
         if (! supportsEnvelopeFor(paramId))
             HART_THROW_OR_RETURN (hart::UnsupportedError, std::string ("DSP doesn't support envelopes for param ID: ") + std::to_string (paramId), *this);
 
-        m_envelopes.emplace (paramId, hart::make_unique<Envelope> (std::move (envelope)));
+        auto envelopeCopy = envelope.copy();
+        m_envelopes[paramId] = std::move (envelopeCopy);
         return *this;
     }
 
@@ -202,7 +203,8 @@ public:
         if (! supportsEnvelopeFor(paramId))
             HART_THROW_OR_RETURN (hart::UnsupportedError, std::string ("DSP doesn't support envelopes for param ID: ") + std::to_string (paramId), *this);
 
-        m_envelopes.emplace (paramId, envelope.copy());
+        auto envelopeCopy = envelope.copy();
+        m_envelopes[paramId] = std::move (envelopeCopy);
         return *this;
     }
 
-- 
2.43.0


From 6df5ecc42d8f6751919138a42ca726a8780ac210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:20 +0000
Subject: [PATCH 04/35] fix: replace the envelopes in DSP copy assignment

Copy assignment kept the envelopes the target already had.
---
 include/dsp/hart_dsp.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/dsp/hart_dsp.hpp b/include/dsp/hart_dsp.hpp
index 2285806..96f5c76 100644
--- a/include/dsp/hart_dsp.hpp
+++ b/include/dsp/hart_dsp.hpp
@@ -156,9 +156,12 @@ public:
         if (this == &other)
             return *this;
 
+        std::unordered_map<int, std::unique_ptr<Envelope>> envelopes;
+
         for (auto& pair : other.m_envelopes)
-            m_envelopes.emplace (pair.first, pair.second->copy());
+            envelopes.emplace (pair.first, pair.second->copy());
 
+        m_envelopes = std::move (envelopes);
         return *this;
     }
 
-- 
2.43.0


From 6ec23aaa80c860cf718be40107fa3183e74c46cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:20 +0000
Subject: [PATCH 05/35] fix: hold the start value in a SegmentedEnvelope
 without segments

It called back() on an empty vector.
---
 include/envelopes/hart_segmentedenvelope.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/envelopes/hart_segmentedenvelope.hpp b/include/envelopes/hart_segmentedenvelope.hpp
index 9aed5b1..41416b0 100644
--- a/include/envelopes/hart_segmentedenvelope.hpp
+++ b/include/envelopes/hart_segmentedenvelope.hpp
@@ -188,7 +188,7 @@ private:
             }
         }
 
-        if (m_currentSegmentIndex >= m_segments.size())
+        if (m_currentSegmentIndex >= m_segments.size() && ! m_segments.empty())
             m_currentValue = m_segments.back().targetValue;
     }
 };
-- 
2.43.0


From f79115c86f6962d6ba7a93bc8f1d46536cc1f953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:25 +0000
Subject: [PATCH 06/35] fix: keep evaluating the other checks after one of them
 has failed

A failed check made processChecks() return, so all the checks after it did not
get to see that piece of audio. Checks that follow a reference signal went out
of sync and reported failures that never happened, and the failures of checks
on the full signal were lost.
---
 include/hart_process_audio.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/hart_process_audio.hpp b/include/hart_process_audio.hpp
index 83b973f..e26d74b 100644
--- a/include/hart_process_audio.hpp
+++ b/include/hart_process_audio.hpp
@@ -484,6 +484,8 @@ private:
 
     bool processChecks (std::vector<Check>& checksGroup, AudioBuffer<SampleType>& outputBlock)
     {
+        bool allChecksPassed = true;
+
         for (auto& check : checksGroup)
         {
             if (check.shouldSkip)
@@ -533,11 +535,11 @@ private:
                 // TODO: FIXME: Do not throw indife of per-block loop if requested to write input or output to a wav file, throw after the loop instead
                 // TODO: Stop processing if expect has failed and outputting to a file wasn't requested
                 // TODO: Skip all checks if check failed, but asked to output a wav file
-                return false;
+                allChecksPassed = false;
             }
         }
 
-        return true;
+        return allChecksPassed;
     }
 
     void appendFailureDetails (std::stringstream& stream, const MatcherFailureDetails& details, AudioBuffer<SampleType>& observedAudioBlock)
-- 
2.43.0


From 366383d8598b9832867323adc7e9fd218113c294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:25 +0000
Subject: [PATCH 07/35] fix: report the right timestamp for failures of full
 signal checks

The timestamps were late by the whole duration of the audio.
---
 include/hart_process_audio.hpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/hart_process_audio.hpp b/include/hart_process_audio.hpp
index e26d74b..6f8f8eb 100644
--- a/include/hart_process_audio.hpp
+++ b/include/hart_process_audio.hpp
@@ -383,7 +383,7 @@ public:
             m_inputSignal->renderNextBlockWithDSPChain (inputBlock);
             m_processor->processWithEnvelopes (inputBlock, outputBlock);
 
-            const bool allChecksPassed = processChecks (perBlockChecks, outputBlock);
+            const bool allChecksPassed = processChecks (perBlockChecks, outputBlock, offsetFrames);
             atLeastOneCheckFailed |= ! allChecksPassed;
             fullInputBuffer.appendFrom (inputBlock);
             fullOutputBuffer.appendFrom (outputBlock);
@@ -391,7 +391,7 @@ public:
             offsetFrames += blockSizeFrames;
         }
 
-        const bool allChecksPassed = processChecks (fullSignalChecks, fullOutputBuffer);
+        const bool allChecksPassed = processChecks (fullSignalChecks, fullOutputBuffer, 0);
         atLeastOneCheckFailed |= ! allChecksPassed;
 
         if (m_saveOutputMode == Save::always || (m_saveOutputMode == Save::whenFails && atLeastOneCheckFailed))
@@ -482,7 +482,7 @@ private:
         });
     }
 
-    bool processChecks (std::vector<Check>& checksGroup, AudioBuffer<SampleType>& outputBlock)
+    bool processChecks (std::vector<Check>& checksGroup, AudioBuffer<SampleType>& outputBlock, size_t blockOffsetFrames)
     {
         bool allChecksPassed = true;
 
@@ -512,7 +512,7 @@ private:
                     stream << std::endl << "Condition: " << *matcher;
 
                     if (check.shouldPass)
-                        appendFailureDetails (stream, matcher->getFailureDetails(), outputBlock);
+                        appendFailureDetails (stream, matcher->getFailureDetails(), outputBlock, blockOffsetFrames);
 
                     throw hart::TestAssertException (std::string (stream.str()));
                 }
@@ -527,7 +527,7 @@ private:
                     stream << std::endl << "Condition: " << * matcher;
 
                     if (check.shouldPass)
-                        appendFailureDetails (stream, matcher->getFailureDetails(), outputBlock);
+                        appendFailureDetails (stream, matcher->getFailureDetails(), outputBlock, blockOffsetFrames);
 
                     hart::ExpectationFailureMessages::get().emplace_back (stream.str());
                 }
@@ -542,9 +542,9 @@ private:
         return allChecksPassed;
     }
 
-    void appendFailureDetails (std::stringstream& stream, const MatcherFailureDetails& details, AudioBuffer<SampleType>& observedAudioBlock)
+    void appendFailureDetails (std::stringstream& stream, const MatcherFailureDetails& details, AudioBuffer<SampleType>& observedAudioBlock, size_t blockOffsetFrames)
     {
-        const double timestampSeconds = static_cast<double> (offsetFrames + details.frame) / m_sampleRateHz;
+        const double timestampSeconds = static_cast<double> (blockOffsetFrames + details.frame) / m_sampleRateHz;
         const SampleType sampleValue = observedAudioBlock[details.channel][details.frame];
 
         stream << std::endl
-- 
2.43.0


From f52b0f7f61592c11819844be040538115cc2798d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:25 +0000
Subject: [PATCH 08/35] fix: prepare full signal matchers for the size of audio
 they receive

They were prepared for the block size of the host, and then handed the entire
audio at once. A reference signal with an automated effect in its DSP chain
could not handle that.
---
 include/hart_process_audio.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/hart_process_audio.hpp b/include/hart_process_audio.hpp
index 6f8f8eb..bf21b40 100644
--- a/include/hart_process_audio.hpp
+++ b/include/hart_process_audio.hpp
@@ -346,7 +346,7 @@ public:
 
         for (auto& check : fullSignalChecks)
         {
-            check.matcher->prepare (m_sampleRateHz, m_numOutputChannels, m_blockSizeFrames);
+            check.matcher->prepare (m_sampleRateHz, m_numOutputChannels, m_durationFrames);
             check.matcher->reset();
             check.shouldSkip = false;
         }
-- 
2.43.0


From 13b977cfdda58c5b89861f98a926709edc82f6ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:25 +0000
Subject: [PATCH 09/35] fix: query DSP and Signal capabilities before preparing
 them

Both are documented to never receive a channel layout or a sample rate that
they have rejected, but the host did not ask.
---
 include/hart_process_audio.hpp  | 7 ++++++-
 include/signals/hart_signal.hpp | 6 ++++++
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/include/hart_process_audio.hpp b/include/hart_process_audio.hpp
index bf21b40..97ee292 100644
--- a/include/hart_process_audio.hpp
+++ b/include/hart_process_audio.hpp
@@ -351,7 +351,12 @@ public:
             check.shouldSkip = false;
         }
 
-        // TODO: Ckeck supportsChannelLayout() here
+        if (! m_processor->supportsSampleRate (m_sampleRateHz))
+            HART_THROW_OR_RETURN (hart::SampleRateError, "Sample rate is not supported by the tested DSP", std::move (m_processor));
+
+        if (! m_processor->supportsChannelLayout (m_numInputChannels, m_numOutputChannels))
+            HART_THROW_OR_RETURN (hart::ChannelLayoutError, "Channel layout is not supported by the tested DSP", std::move (m_processor));
+
         m_processor->resetWithEnvelopes();
         m_processor->prepareWithEnvelopes (m_sampleRateHz, m_numInputChannels, m_numOutputChannels, m_blockSizeFrames);
 
diff --git a/include/signals/hart_signal.hpp b/include/signals/hart_signal.hpp
index 33f7b16..53fc355 100644
--- a/include/signals/hart_signal.hpp
+++ b/include/signals/hart_signal.hpp
@@ -197,6 +197,12 @@ public:
     /// @attention If you're not making a custom host, you probably don't need to call this method.
     void prepareWithDSPChain (double sampleRateHz, size_t numOutputChannels, size_t maxBlockSizeFrames)
     {
+        if (! supportsNumChannels (numOutputChannels))
+            HART_THROW_OR_RETURN_VOID (ChannelLayoutError, "The Signal does not support this number of channels");
+
+        if (! supportsSampleRate (sampleRateHz))
+            HART_THROW_OR_RETURN_VOID (hart::SampleRateError, "The Signal does not support this sample rate");
+
         prepare (sampleRateHz, numOutputChannels, maxBlockSizeFrames);
         const size_t numInputChannels = numOutputChannels;
 
-- 
2.43.0


From 1dd2415d5afecb014c15e2309a8f3346961fb3de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:24 +0000
Subject: [PATCH 10/35] fix: save the requested files when an assertion fails

A failed assertTrue() or assertFalse() left process() before the files with
Save::whenFails or Save::always were written.
---
 include/hart_process_audio.hpp | 38 +++++++++++++++++++++++++++++-----
 1 file changed, 33 insertions(+), 5 deletions(-)

diff --git a/include/hart_process_audio.hpp b/include/hart_process_audio.hpp
index 97ee292..6e5911b 100644
--- a/include/hart_process_audio.hpp
+++ b/include/hart_process_audio.hpp
@@ -3,6 +3,7 @@
 #include <algorithm>  // min()
 #include <cassert>
 #include <cmath>
+#include <exception>  // exception_ptr
 #include <iomanip>
 #include <memory>
 #include <sstream>
@@ -376,6 +377,8 @@ public:
         AudioBuffer<SampleType> fullInputBuffer (m_numInputChannels);
         AudioBuffer<SampleType> fullOutputBuffer (m_numOutputChannels);
         bool atLeastOneCheckFailed = false;
+        std::exception_ptr failedAssertion;  // To be re-thrown after saving the requested files
+        const bool shouldSaveIfFails = m_saveOutputMode != Save::never || m_savePlotMode != Save::never;
 
         while (offsetFrames < m_durationFrames)
         {
@@ -388,16 +391,39 @@ public:
             m_inputSignal->renderNextBlockWithDSPChain (inputBlock);
             m_processor->processWithEnvelopes (inputBlock, outputBlock);
 
-            const bool allChecksPassed = processChecks (perBlockChecks, outputBlock, offsetFrames);
-            atLeastOneCheckFailed |= ! allChecksPassed;
+            try
+            {
+                const bool allChecksPassed = failedAssertion != nullptr || processChecks (perBlockChecks, outputBlock, offsetFrames);
+                atLeastOneCheckFailed |= ! allChecksPassed;
+            }
+            catch (const hart::TestAssertException&)
+            {
+                if (! shouldSaveIfFails)
+                    throw;
+
+                failedAssertion = std::current_exception();
+                atLeastOneCheckFailed = true;
+            }
+
             fullInputBuffer.appendFrom (inputBlock);
             fullOutputBuffer.appendFrom (outputBlock);
 
             offsetFrames += blockSizeFrames;
         }
 
-        const bool allChecksPassed = processChecks (fullSignalChecks, fullOutputBuffer, 0);
-        atLeastOneCheckFailed |= ! allChecksPassed;
+        try
+        {
+            const bool allChecksPassed = failedAssertion != nullptr || processChecks (fullSignalChecks, fullOutputBuffer, 0);
+            atLeastOneCheckFailed |= ! allChecksPassed;
+        }
+        catch (const hart::TestAssertException&)
+        {
+            if (! shouldSaveIfFails)
+                throw;
+
+            failedAssertion = std::current_exception();
+            atLeastOneCheckFailed = true;
+        }
 
         if (m_saveOutputMode == Save::always || (m_saveOutputMode == Save::whenFails && atLeastOneCheckFailed))
             WavWriter<SampleType>::writeBuffer (fullOutputBuffer, m_saveOutputPath, m_sampleRateHz, m_saveOutputWavFormat);
@@ -405,6 +431,9 @@ public:
         if (m_savePlotMode == Save::always || (m_savePlotMode == Save::whenFails && atLeastOneCheckFailed))
             plotData (fullInputBuffer, fullOutputBuffer, m_sampleRateHz, m_savePlotPath);
 
+        if (failedAssertion != nullptr)
+            std::rethrow_exception (failedAssertion);
+
         return std::move (m_processor);
     }
 
@@ -537,7 +566,6 @@ private:
                     hart::ExpectationFailureMessages::get().emplace_back (stream.str());
                 }
 
-                // TODO: FIXME: Do not throw indife of per-block loop if requested to write input or output to a wav file, throw after the loop instead
                 // TODO: Stop processing if expect has failed and outputting to a file wasn't requested
                 // TODO: Skip all checks if check failed, but asked to output a wav file
                 allChecksPassed = false;
-- 
2.43.0


From 5a8f4932c9c3e718ad054a4e8965269b5d7d276d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:38 +0000
Subject: [PATCH 11/35] fix: report wav files that could not be written
 completely

Short writes, failures to finalize the header and failures to close the file
were ignored, leaving a damaged file behind a successful-looking test.
---
 include/hart_wavwriter.hpp | 42 +++++++++++++++++++++++++++++++++++++-
 1 file changed, 41 insertions(+), 1 deletion(-)

diff --git a/include/hart_wavwriter.hpp b/include/hart_wavwriter.hpp
index 0fd9d9d..39a5aef 100644
--- a/include/hart_wavwriter.hpp
+++ b/include/hart_wavwriter.hpp
@@ -1,6 +1,8 @@
 #pragma once
 
 #include <cmath>  // delete me
+#include <cstdio>
+#include <memory>
 #include <string>
 #include <vector>
 
@@ -49,7 +51,11 @@ public:
                 break;
         }
 
-        if (! drwav_init_file_write (&drWavHandle, fileName.c_str(), &drWavFormat, nullptr))
+        // Owning the file here, because dr_wav ignores the errors it gets while finalizing and closing its own files
+        FileWriter fileWriter { std::fopen (fileName.c_str(), "wb"), true };
+        std::unique_ptr<std::FILE, int (*) (std::FILE*)> file (fileWriter.file, &std::fclose);
+
+        if (file == nullptr || ! drwav_init_write (&drWavHandle, &drWavFormat, &onWrite, &onSeek, &fileWriter, nullptr))
             HART_THROW_OR_RETURN_VOID (hart::IOError, "Failed to init WAV writer");
 
         switch (wavFormat)
@@ -130,6 +136,40 @@ public:
         }
 
         drwav_uninit (&drWavHandle);
+        const bool closedSuccessfully = std::fclose (file.release()) == 0;
+
+        if (! fileWriter.allWritesSucceeded || ! closedSuccessfully)
+            HART_THROW_OR_RETURN_VOID (hart::IOError, "Failed to write the WAV file");
+    }
+
+private:
+    struct FileWriter
+    {
+        std::FILE* file;
+        bool allWritesSucceeded;
+    };
+
+    static size_t onWrite (void* userData, const void* data, size_t bytesToWrite)
+    {
+        FileWriter& fileWriter = *static_cast<FileWriter*> (userData);
+        const size_t bytesWritten = std::fwrite (data, 1, bytesToWrite, fileWriter.file);
+
+        if (bytesWritten != bytesToWrite)
+            fileWriter.allWritesSucceeded = false;
+
+        return bytesWritten;
+    }
+
+    static drwav_bool32 onSeek (void* userData, int offset, drwav_seek_origin origin)
+    {
+        FileWriter& fileWriter = *static_cast<FileWriter*> (userData);
+        const int seekOrigin = origin == DRWAV_SEEK_SET ? SEEK_SET : (origin == DRWAV_SEEK_CUR ? SEEK_CUR : SEEK_END);
+        const bool success = std::fseek (fileWriter.file, offset, seekOrigin) == 0;
+
+        if (! success)
+            fileWriter.allWritesSucceeded = false;
+
+        return success ? DRWAV_TRUE : DRWAV_FALSE;
     }
 };
 
-- 
2.43.0


From 54947954472b7245f5c06460acbbb757c67e5a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:38 +0000
Subject: [PATCH 12/35] fix: report plots that could not be written

The stream was never checked for errors.
---
 include/hart_plot.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/hart_plot.hpp b/include/hart_plot.hpp
index 49bd379..6c8b04a 100644
--- a/include/hart_plot.hpp
+++ b/include/hart_plot.hpp
@@ -1,10 +1,13 @@
 #pragma once
 
+#include <fstream>
+
 #include "../dependencies/choc/platform/choc_DisableAllWarnings.h"
 #include "../dependencies/signalsmith/plot.h"
 #include "../dependencies/choc/platform/choc_ReenableAllWarnings.h"
 
 #include "hart_audio_buffer.hpp"
+#include "hart_exceptions.hpp"
 
 namespace hart {
 
@@ -70,7 +73,12 @@ void plotData (const AudioBuffer<SampleType>& input, const AudioBuffer<SampleTyp
         }
     }
 
-    figure.write (plotFilePath);
+    std::ofstream plotFile (plotFilePath);
+    figure.write (plotFile);
+    plotFile.close();
+
+    if (! plotFile)
+        HART_THROW_OR_RETURN_VOID (hart::IOError, "Failed to write the plot file");
 }
 
 }  // namespace hart
-- 
2.43.0


From b72e26522321c6a3b89f895ae307cfc3677916c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:38 +0000
Subject: [PATCH 13/35] fix: plot all the channels on the same time range

The time was not reset between the channels, so they were drawn one after
another.
---
 include/hart_plot.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/hart_plot.hpp b/include/hart_plot.hpp
index 6c8b04a..846ef90 100644
--- a/include/hart_plot.hpp
+++ b/include/hart_plot.hpp
@@ -47,11 +47,10 @@ void plotData (const AudioBuffer<SampleType>& input, const AudioBuffer<SampleTyp
         outputSignalPlot.x.major (t);
     }
 
-    double timeSeconds = 0.0;
-
     for (size_t channel = 0; channel < input.getNumChannels(); ++channel)
     {
         auto &inputSignalLine = inputSignalPlot.line();
+        double timeSeconds = 0.0;
 
         for (size_t frame = 0; frame < input.getNumFrames(); ++frame)
         {
@@ -60,11 +59,10 @@ void plotData (const AudioBuffer<SampleType>& input, const AudioBuffer<SampleTyp
         }
     }
 
-    timeSeconds = 0.0;
-
     for (size_t channel = 0; channel < output.getNumChannels(); ++channel)
     {
         auto &outputSignalLine = outputSignalPlot.line();
+        double timeSeconds = 0.0;
 
         for (size_t frame = 0; frame < output.getNumFrames(); ++frame)
         {
-- 
2.43.0


From 4ef02413b781b12914e21b97aa81656300e9e3a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:38 +0000
Subject: [PATCH 14/35] fix: do not let an unexpected exception in one test
 abort the whole run

Only assertion and configuration exceptions were caught, anything else (such as
IOError from a missing wav file) terminated the runner with no results.
---
 include/hart_test_registry.hpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/include/hart_test_registry.hpp b/include/hart_test_registry.hpp
index ab34844..4e19076 100644
--- a/include/hart_test_registry.hpp
+++ b/include/hart_test_registry.hpp
@@ -1,6 +1,7 @@
 #pragma once
 
 #include <algorithm>  // shuffle()
+#include <exception>
 #include <iostream>
 #include <random>
 #include <string>
@@ -136,6 +137,16 @@ private:
             assertionFailMessage = e.what();
             assertionFailed = true;
         }
+        catch (const std::exception& e)
+        {
+            assertionFailMessage = std::string ("Unexpected exception: ") + e.what();
+            assertionFailed = true;
+        }
+        catch (...)
+        {
+            assertionFailMessage = "Unexpected exception of unknown type";
+            assertionFailed = true;
+        }
 
         // TODO: Output test durations
 
-- 
2.43.0


From 1a526c9666b79e9d8ac5f49ee408f42caf0ac70b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:38 +0000
Subject: [PATCH 15/35] fix: treat a sine sweep shorter than one frame as
 silence

---
 include/signals/hart_sine_sweep.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/signals/hart_sine_sweep.hpp b/include/signals/hart_sine_sweep.hpp
index cc2d727..0ff5746 100644
--- a/include/signals/hart_sine_sweep.hpp
+++ b/include/signals/hart_sine_sweep.hpp
@@ -130,6 +130,9 @@ public:
     {
         m_sampleRateHz = sampleRateHz;
         m_durationFrames = roundToSizeT (m_durationSeconds * m_sampleRateHz);
+
+        if (m_durationFrames == 0)
+            m_generateSilence = true;
     }
 
     void renderNextBlock (AudioBuffer<SampleType>& output) override
-- 
2.43.0


From f366febdb9b4249ae9fa5103e6bc8e39ea390554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:38 +0000
Subject: [PATCH 16/35] fix: fail the stock matchers on NaN samples

All the comparisons with NaN are false, so the matchers accepted audio with
NaNs in it.
---
 include/matchers/hart_equalsto.hpp   | 3 ++-
 include/matchers/hart_peaksat.hpp    | 8 ++++++++
 include/matchers/hart_peaksbelow.hpp | 2 +-
 3 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/include/matchers/hart_equalsto.hpp b/include/matchers/hart_equalsto.hpp
index e045970..cc4fbb7 100644
--- a/include/matchers/hart_equalsto.hpp
+++ b/include/matchers/hart_equalsto.hpp
@@ -126,7 +126,8 @@ private:
 
     inline bool notEqual (SampleType x, SampleType y)
     {
-        return std::abs (x - y) > m_toleranceLinear;
+        // Negated to treat NaNs as a mismatch
+        return x != y && ! (std::abs (x - y) <= m_toleranceLinear);
     }
 };
 
diff --git a/include/matchers/hart_peaksat.hpp b/include/matchers/hart_peaksat.hpp
index 496e0ee..4937122 100644
--- a/include/matchers/hart_peaksat.hpp
+++ b/include/matchers/hart_peaksat.hpp
@@ -47,6 +47,14 @@ public:
             {
                 const SampleType currentPeakLinear = std::abs (observedAudio[channel][frame]);
 
+                if (std::isnan (currentPeakLinear))
+                {
+                    m_failedFrame = frame;
+                    m_failedChannel = channel;
+                    m_observedPeakDb = currentPeakLinear;
+                    return false;
+                }
+
                 if (currentPeakLinear > observedPeakLinear)
                 {
                     observedPeakLinear = currentPeakLinear;
diff --git a/include/matchers/hart_peaksbelow.hpp b/include/matchers/hart_peaksbelow.hpp
index 0e5aa8b..90c1477 100644
--- a/include/matchers/hart_peaksbelow.hpp
+++ b/include/matchers/hart_peaksbelow.hpp
@@ -41,7 +41,7 @@ public:
             {
                 const SampleType observedPeakLinear = std::abs (observedAudio[channel][frame]);
 
-                if (observedPeakLinear > m_thresholdLinear)
+                if (! (observedPeakLinear <= m_thresholdLinear))  // Negated to catch NaNs
                 {
                     m_failedFrame = frame;
                     m_failedChannel = channel;
-- 
2.43.0


From 581892183ddc5404eae7b93e89529d4f342be5a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:38 +0000
Subject: [PATCH 17/35] fix: report the level of negative expected samples in
 EqualsTo

---
 include/matchers/hart_equalsto.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/matchers/hart_equalsto.hpp b/include/matchers/hart_equalsto.hpp
index cc4fbb7..a4c409b 100644
--- a/include/matchers/hart_equalsto.hpp
+++ b/include/matchers/hart_equalsto.hpp
@@ -96,7 +96,7 @@ public:
         const SampleType m_differenceLinear = std::abs (m_failedExpectedValue - m_failedObservedValue);
         std::stringstream stream;
         stream << linPrecision << "Expected sample value: " << m_failedExpectedValue
-            << dbPrecision << " (" << ratioToDecibels (m_failedExpectedValue) << " dB)"
+            << dbPrecision << " (" << ratioToDecibels (std::abs (m_failedExpectedValue)) << " dB)"
             << linPrecision << ", difference: " << m_differenceLinear
             << dbPrecision << " (" << ratioToDecibels (m_differenceLinear) << " dB)";
 
-- 
2.43.0


From e978ad71f029b77f6744f59b50fbc73342c02977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:38 +0000
Subject: [PATCH 18/35] fix: produce silence when looping a wav file with no
 frames

---
 include/signals/hart_wavfile.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/signals/hart_wavfile.hpp b/include/signals/hart_wavfile.hpp
index 1d924f2..bbbdc3b 100644
--- a/include/signals/hart_wavfile.hpp
+++ b/include/signals/hart_wavfile.hpp
@@ -112,7 +112,7 @@ public:
 
         while (frameInOutputBuffer < numFrames)
         {
-            hassert (m_loop == Loop::no);
+            hassert (m_loop == Loop::no || m_wavFrames->getNumFrames() == 0);
 
             for (size_t channel = 0; channel < m_wavNumChannels; ++channel)
                 output[channel][frameInOutputBuffer] = (SampleType) 0;
-- 
2.43.0


From 651af5736a8b0a146be6eceb06e100bb042ce175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:38 +0000
Subject: [PATCH 19/35] fix: let WavFile fill fewer channels than there are in
 the file

It is documented to do so, and supportsNumChannels() accepts such layouts, but
prepare() rejected them.
---
 include/signals/hart_wavfile.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/signals/hart_wavfile.hpp b/include/signals/hart_wavfile.hpp
index bbbdc3b..cdcaa9f 100644
--- a/include/signals/hart_wavfile.hpp
+++ b/include/signals/hart_wavfile.hpp
@@ -82,7 +82,7 @@ public:
     void prepare (double sampleRateHz, size_t numOutputChannels, size_t /*maxBlockSizeFrames*/) override
     {
         // There are a few ovbvious cases where channel number mismatch can be gracefully resolved - perhaps in the future
-        if (numOutputChannels != m_wavNumChannels)
+        if (numOutputChannels > m_wavNumChannels)
             HART_THROW_OR_RETURN_VOID (hart::ChannelLayoutError, std::string ("Unexpected channel number"));
 
         if (floatsNotEqual (sampleRateHz, m_wavSampleRateHz))
@@ -91,7 +91,7 @@ public:
 
     void renderNextBlock (AudioBuffer<SampleType>& output) override
     {
-        // TODO: Add support for number of channels different from the wav file
+        // TODO: Add support for number of channels larger than in the wav file
         // TODO: Add resampling
         const size_t numFrames = output.getNumFrames();
         size_t frameInOutputBuffer = 0;
@@ -99,7 +99,7 @@ public:
 
         while (m_wavOffsetFrames < m_wavFrames->getNumFrames() && frameInOutputBuffer < numFrames)
         {
-            for (size_t channel = 0; channel < m_wavNumChannels; ++channel)
+            for (size_t channel = 0; channel < output.getNumChannels(); ++channel)
                 output[channel][frameInOutputBuffer] = (*m_wavFrames)[channel][frameInWavBuffer];
 
             ++frameInOutputBuffer;
@@ -114,7 +114,7 @@ public:
         {
             hassert (m_loop == Loop::no || m_wavFrames->getNumFrames() == 0);
 
-            for (size_t channel = 0; channel < m_wavNumChannels; ++channel)
+            for (size_t channel = 0; channel < output.getNumChannels(); ++channel)
                 output[channel][frameInOutputBuffer] = (SampleType) 0;
 
             ++frameInOutputBuffer;
-- 
2.43.0


From 443926b1327897bdd0a9e02bd524a02c53cc2140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:38 +0000
Subject: [PATCH 20/35] fix: free the decoded wav data if WavFile fails to
 store it

---
 include/signals/hart_wavfile.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/signals/hart_wavfile.hpp b/include/signals/hart_wavfile.hpp
index cdcaa9f..62702bb 100644
--- a/include/signals/hart_wavfile.hpp
+++ b/include/signals/hart_wavfile.hpp
@@ -47,12 +47,14 @@ public:
         unsigned int numChannels;
         unsigned int wavSampleRateHz;
 
-        float* pcmFrames = drwav_open_file_and_read_pcm_frames_f32 (
+        const std::unique_ptr<float, void (*) (float*)> pcmFrames (drwav_open_file_and_read_pcm_frames_f32 (
             toAbsolutePath (filePath).c_str(),
             &numChannels,
             &wavSampleRateHz,
             &numFrames,
             nullptr
+            ),
+            [] (float* frames) { drwav_free (frames, nullptr); }
             );
 
         if (pcmFrames == nullptr)
@@ -62,9 +64,7 @@ public:
 
         for (size_t frame = 0; frame < numFrames; ++frame)
             for (size_t channel = 0; channel < numChannels; ++channel)
-                (*m_wavFrames)[channel][frame] = pcmFrames[frame * numChannels + channel];
-
-        drwav_free (pcmFrames, nullptr);
+                (*m_wavFrames)[channel][frame] = pcmFrames.get()[frame * numChannels + channel];
 
         m_wavSampleRateHz = static_cast<double> (wavSampleRateHz);
         m_wavNumChannels = static_cast<size_t> (numChannels);
-- 
2.43.0


From 97d5a5d8bf5be0439919a0192b0b2db38ac43f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:38 +0000
Subject: [PATCH 21/35] fix: keep AudioBuffer intact if copying into it fails

Running out of memory in the copy assignment left the buffer with a number of
frames that did not match its data.
---
 include/hart_audio_buffer.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/hart_audio_buffer.hpp b/include/hart_audio_buffer.hpp
index b9fc275..31dea09 100644
--- a/include/hart_audio_buffer.hpp
+++ b/include/hart_audio_buffer.hpp
@@ -48,9 +48,12 @@ public:
         if (m_numChannels != other.m_numChannels)
             HART_THROW_OR_RETURN (hart::ChannelLayoutError, "Can't copy from a buffer with different number of channels", *this);
 
-        m_numFrames = other.m_numFrames;
-        m_frames = other.m_frames;
+        // Anything that can fail goes before modifying the buffer
+        std::vector<SampleType> frames (other.m_frames);
         m_channelPointers.resize (m_numChannels);
+
+        m_numFrames = other.m_numFrames;
+        m_frames = std::move (frames);
         updateChannelPointers();
 
         return *this;
-- 
2.43.0


From 2251f2bceb9e8c4b21bc983a9e2dfb95f78ff9c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:38 +0000
Subject: [PATCH 22/35] fix: reject frame ranges that wrap around in
 AudioBuffer::getMagnitude()

---
 include/hart_audio_buffer.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/hart_audio_buffer.hpp b/include/hart_audio_buffer.hpp
index 31dea09..b0a6abe 100644
--- a/include/hart_audio_buffer.hpp
+++ b/include/hart_audio_buffer.hpp
@@ -143,7 +143,7 @@ public:
         if (channel >= m_numChannels)
             HART_THROW_OR_RETURN (hart::IndexError, "Invalid channel", (SampleType) 0);
 
-        if (startFrame + numFrames > m_numFrames || numFrames == 0)
+        if (startFrame > m_numFrames || numFrames > m_numFrames - startFrame || numFrames == 0)
             HART_THROW_OR_RETURN (hart::IndexError, "Invalid frame range", (SampleType) 0);
 
         const SampleType* start = m_channelPointers[channel] + startFrame;
@@ -158,7 +158,7 @@ public:
 
     SampleType getMagnitude (size_t startFrame, size_t numFrames) const
     {
-        if (startFrame + numFrames > m_numFrames || numFrames == 0)
+        if (startFrame > m_numFrames || numFrames > m_numFrames - startFrame || numFrames == 0)
                 HART_THROW_OR_RETURN (hart::IndexError, "Invalid frame range", (SampleType) 0);
 
         SampleType peakSampleAcrossAllChannels = (SampleType) 0;
-- 
2.43.0


From 4832e42eab9736010a5d9263bd16b452353333f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:45 +0000
Subject: [PATCH 23/35] fix: do not allocate after moving the data out of an
 AudioBuffer

If re-allocating the channel pointers of the moved-from buffer failed, that
buffer was left with fewer pointers than channels, and the data was lost.
---
 include/hart_audio_buffer.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/hart_audio_buffer.hpp b/include/hart_audio_buffer.hpp
index b0a6abe..19ff02e 100644
--- a/include/hart_audio_buffer.hpp
+++ b/include/hart_audio_buffer.hpp
@@ -31,10 +31,12 @@ public:
 
     AudioBuffer (AudioBuffer&& other) :
         m_numChannels (other.m_numChannels),
-        m_numFrames (other.m_numFrames),
-        m_frames (std::move (other.m_frames)),
-        m_channelPointers (std::move (other.m_channelPointers))
+        m_channelPointers (m_numChannels)
     {
+        // Each buffer keeps its own array of pointers, so nothing can fail from here on
+        m_numFrames = other.m_numFrames;
+        m_frames = std::move (other.m_frames);
+        updateChannelPointers();
         other.clear();
     }
 
@@ -69,7 +71,7 @@ public:
 
         m_numFrames = other.m_numFrames;
         m_frames = std::move (other.m_frames);
-        m_channelPointers = std::move (other.m_channelPointers);
+        updateChannelPointers();
         other.clear();
 
         return *this;
-- 
2.43.0


From 6490a48cf695aa0a95791a0d54ebb3df26874e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:02 +0000
Subject: [PATCH 24/35] fix: keep a sine sweep shorter than one frame silent
 after a reset

---
 include/signals/hart_sine_sweep.hpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/include/signals/hart_sine_sweep.hpp b/include/signals/hart_sine_sweep.hpp
index 0ff5746..c1dd10d 100644
--- a/include/signals/hart_sine_sweep.hpp
+++ b/include/signals/hart_sine_sweep.hpp
@@ -130,14 +130,11 @@ public:
     {
         m_sampleRateHz = sampleRateHz;
         m_durationFrames = roundToSizeT (m_durationSeconds * m_sampleRateHz);
-
-        if (m_durationFrames == 0)
-            m_generateSilence = true;
     }
 
     void renderNextBlock (AudioBuffer<SampleType>& output) override
     {
-        if (m_generateSilence)
+        if (m_generateSilence || m_durationFrames == 0)
         {
             fillWithSilence (output);
             return;
-- 
2.43.0


From ef4602f283581aeab24fd95f3e45a3a9a42b2873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:13 +0000
Subject: [PATCH 25/35] fix: start over at the loop point of a wav file within
 a block

---
 include/signals/hart_wavfile.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/include/signals/hart_wavfile.hpp b/include/signals/hart_wavfile.hpp
index 62702bb..d9c5460 100644
--- a/include/signals/hart_wavfile.hpp
+++ b/include/signals/hart_wavfile.hpp
@@ -95,15 +95,13 @@ public:
         // TODO: Add resampling
         const size_t numFrames = output.getNumFrames();
         size_t frameInOutputBuffer = 0;
-        size_t frameInWavBuffer = m_wavOffsetFrames;
 
         while (m_wavOffsetFrames < m_wavFrames->getNumFrames() && frameInOutputBuffer < numFrames)
         {
             for (size_t channel = 0; channel < output.getNumChannels(); ++channel)
-                output[channel][frameInOutputBuffer] = (*m_wavFrames)[channel][frameInWavBuffer];
+                output[channel][frameInOutputBuffer] = (*m_wavFrames)[channel][m_wavOffsetFrames];
 
             ++frameInOutputBuffer;
-            ++frameInWavBuffer;
             ++m_wavOffsetFrames;
 
             if (m_loop == Loop::yes)
-- 
2.43.0


From beff986ddc72b1749ceb209a930fc90ea5ca00d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:54 +0000
Subject: [PATCH 26/35] fix: don't index into an empty vector when appending
 nothing to an empty audio buffer

---
 include/hart_audio_buffer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/hart_audio_buffer.hpp b/include/hart_audio_buffer.hpp
index 19ff02e..91523d3 100644
--- a/include/hart_audio_buffer.hpp
+++ b/include/hart_audio_buffer.hpp
@@ -117,7 +117,7 @@ public:
 
         for (size_t channel = 0; channel < m_numChannels; ++channel)
         {
-            SampleType* newChannelStart = &combinedFrames[channel * (thisNumFrames + otherNumFrames)];
+            SampleType* newChannelStart = combinedFrames.data() + channel * (thisNumFrames + otherNumFrames);
             std::copy (m_channelPointers[channel], m_channelPointers[channel] + thisNumFrames, newChannelStart);
             std::copy (otherBuffer[channel], otherBuffer[channel] + otherNumFrames, newChannelStart + thisNumFrames);
         }
-- 
2.43.0


From 050ff324a81d4a5530f2a89115bbc0bf1a122932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:46 +0000
Subject: [PATCH 27/35] fix: don't leak plot elements when running out of
 memory while adding them

---
 dependencies/signalsmith/plot.h | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/dependencies/signalsmith/plot.h b/dependencies/signalsmith/plot.h
index 3ba7f6a..85f07f1 100644
--- a/dependencies/signalsmith/plot.h
+++ b/dependencies/signalsmith/plot.h
@@ -547,7 +547,8 @@ protected:
 	};
 	/// These children are removed when the layout is invalidated
 	void addLayoutChild(SvgDrawable *child) {
-		layoutChildren.emplace_back(child);
+		std::unique_ptr<SvgDrawable> owned(child);
+		layoutChildren.push_back(std::move(owned));
 	}
 public:
 	SvgDrawable() {}
@@ -562,10 +563,11 @@ public:
 
 	/// Takes ownership of the child
 	void addChild(SvgDrawable *child, bool front=false) {
+		std::unique_ptr<SvgDrawable> owned(child);
 		if (front) {
-			children.emplace(children.begin(), child);
+			children.insert(children.begin(), std::move(owned));
 		} else {
-			children.emplace_back(child);
+			children.push_back(std::move(owned));
 		}
 	}
 
@@ -1728,29 +1730,27 @@ class Plot2D : public SvgFileDrawable {
 	double titleRx, titleRy;
 	std::vector<std::unique_ptr<Axis>> xAxes, yAxes;
 	Bounds size;
+	static Axis & addAxis(std::vector<std::unique_ptr<Axis>> &axes, const Axis &axis) {
+		std::unique_ptr<Axis> owned(new Axis(axis));
+		axes.push_back(std::move(owned));
+		return *axes.back();
+	}
 public:
 	Axis &x, &y;
 	/// Creates an X axis, covering some portion of the left/right side
 	Axis & newX(double lowRatio=0, double highRatio=1) {
-		Axis *x = new Axis(size.left + lowRatio*size.width(), size.left + highRatio*size.width());
-		xAxes.emplace_back(x);
-		return *x;
+		return addAxis(xAxes, Axis(size.left + lowRatio*size.width(), size.left + highRatio*size.width()));
 	}
 	/// Creates a Y axis, covering some portion of the bottom/top side
 	Axis & newY(double lowRatio=0, double highRatio=1) {
-		Axis *y = new Axis(size.bottom - lowRatio*size.height(), size.bottom - highRatio*size.height());
-		yAxes.emplace_back(y);
-		return *y;
+		return addAxis(yAxes, Axis(size.bottom - lowRatio*size.height(), size.bottom - highRatio*size.height()));
 	}
 	/// Style for the next auto-styled element
 	PlotStyle::Counter styleCounter;
 
 	Plot2D() : Plot2D(240, 130) {}
 	Plot2D(double width, double height) : Plot2D({0, width}, {height, 0}) {}
-	Plot2D(Axis ax, Axis ay) : size(ax.drawMin(), ax.drawMax(), ay.drawMin(), ay.drawMax()), x(*(new Axis(ax))), y(*(new Axis(ay))) {
-		xAxes.emplace_back(&x); // created above, but we take ownership here
-		yAxes.emplace_back(&y);
-	}
+	Plot2D(Axis ax, Axis ay) : size(ax.drawMin(), ax.drawMax(), ay.drawMin(), ay.drawMax()), x(addAxis(xAxes, ax)), y(addAxis(yAxes, ay)) {}
 	
 	void writeData(SvgWriter &svg, const PlotStyle &style) override {
 		svg.raw("<g class=\"svg-plot-group\">");
-- 
2.43.0


From 2b4502b36e2a32712328917cbf39927a89a56d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:07 +0000
Subject: [PATCH 28/35] fix: report running out of memory while composing
 failure reports and plots instead of cutting them short

---
 dependencies/signalsmith/plot.h      | 6 +++++-
 include/hart_process_audio.hpp       | 2 ++
 include/matchers/hart_equalsto.hpp   | 1 +
 include/matchers/hart_peaksat.hpp    | 1 +
 include/matchers/hart_peaksbelow.hpp | 1 +
 5 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/dependencies/signalsmith/plot.h b/dependencies/signalsmith/plot.h
index 85f07f1..36b3228 100644
--- a/dependencies/signalsmith/plot.h
+++ b/dependencies/signalsmith/plot.h
@@ -680,6 +680,7 @@ public:
 
 		svg.raw("<style>");
 		std::stringstream cssStream;
+		cssStream.exceptions(std::ios::badbit); // running out of memory must not just cut it short
 		style.css(cssStream);
 		addCompactCss(style.cssPrefix + cssStream.str());
 		svg.raw("</style>");
@@ -739,7 +740,10 @@ struct Tick {
 
 	template<typename T>
 	Tick(T v) : value(double(v)) {
-		name = (std::stringstream() << value).str();
+		std::stringstream stream;
+		stream.exceptions(std::ios::badbit); // running out of memory must not just cut it short
+		stream << value;
+		name = stream.str();
 	}
 };
 
diff --git a/include/hart_process_audio.hpp b/include/hart_process_audio.hpp
index 6e5911b..72dd92b 100644
--- a/include/hart_process_audio.hpp
+++ b/include/hart_process_audio.hpp
@@ -538,6 +538,7 @@ private:
                 if (assertionLevel == SignalAssertionLevel::assert)
                 {
                     std::stringstream stream;
+                    stream.exceptions (std::ios_base::badbit);  // Or running out of memory would just cut the text short
                     stream << (check.shouldPass ? "assertTrue() failed" : "assertFalse() failed");
 
                     if (! m_testLabel.empty())
@@ -553,6 +554,7 @@ private:
                 else
                 {
                     std::stringstream stream;
+                    stream.exceptions (std::ios_base::badbit);  // Or running out of memory would just cut the text short
                     stream << (check.shouldPass ? "expectTrue() failed" : "expectFalse() failed");
 
                     if (!m_testLabel.empty())
diff --git a/include/matchers/hart_equalsto.hpp b/include/matchers/hart_equalsto.hpp
index a4c409b..65221c2 100644
--- a/include/matchers/hart_equalsto.hpp
+++ b/include/matchers/hart_equalsto.hpp
@@ -95,6 +95,7 @@ public:
     {
         const SampleType m_differenceLinear = std::abs (m_failedExpectedValue - m_failedObservedValue);
         std::stringstream stream;
+        stream.exceptions (std::ios_base::badbit);  // Or running out of memory would just cut the text short
         stream << linPrecision << "Expected sample value: " << m_failedExpectedValue
             << dbPrecision << " (" << ratioToDecibels (std::abs (m_failedExpectedValue)) << " dB)"
             << linPrecision << ", difference: " << m_differenceLinear
diff --git a/include/matchers/hart_peaksat.hpp b/include/matchers/hart_peaksat.hpp
index 4937122..0231f6f 100644
--- a/include/matchers/hart_peaksat.hpp
+++ b/include/matchers/hart_peaksat.hpp
@@ -85,6 +85,7 @@ public:
     virtual MatcherFailureDetails getFailureDetails() const override
     {
         std::stringstream stream;
+        stream.exceptions (std::ios_base::badbit);  // Or running out of memory would just cut the text short
         stream << dbPrecision << "Observed audio peaks at " << m_observedPeakDb << " dB";
 
         MatcherFailureDetails details;
diff --git a/include/matchers/hart_peaksbelow.hpp b/include/matchers/hart_peaksbelow.hpp
index 90c1477..88f0af9 100644
--- a/include/matchers/hart_peaksbelow.hpp
+++ b/include/matchers/hart_peaksbelow.hpp
@@ -64,6 +64,7 @@ public:
     virtual MatcherFailureDetails getFailureDetails() const override
     {
         std::stringstream stream;
+        stream.exceptions (std::ios_base::badbit);  // Or running out of memory would just cut the text short
         stream << "Observed audio peaks at at least "
             << dbPrecision << m_observedPeakDb << " dB";
 
-- 
2.43.0


From a3e1da9a7f7866f62d9aee1d5795f86d181f6242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:28 +0000
Subject: [PATCH 29/35] fix: copying, moving or assigning a prepared effect
 keeps its automation

---
 include/dsp/hart_dsp.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/dsp/hart_dsp.hpp b/include/dsp/hart_dsp.hpp
index 96f5c76..a97b3aa 100644
--- a/include/dsp/hart_dsp.hpp
+++ b/include/dsp/hart_dsp.hpp
@@ -137,6 +137,7 @@ public:
     /// @brief Copies from another DSP effect instance
     /// @details Attached automation envelopes are deep-copied
     DSP (const DSP& other)
+        : m_envelopeBuffers (other.m_envelopeBuffers)
     {
         for (auto& pair : other.m_envelopes)
             m_envelopes.emplace (pair.first, pair.second->copy());
@@ -145,7 +146,8 @@ public:
     /// @brief Move constructor
     /// @details Attached automation envelopes are moved as well
     DSP (DSP&& other) noexcept
-        : m_envelopes (std::move (other.m_envelopes))
+        : m_envelopes (std::move (other.m_envelopes)),
+          m_envelopeBuffers (std::move (other.m_envelopeBuffers))
     {
     }
 
@@ -161,7 +163,9 @@ public:
         for (auto& pair : other.m_envelopes)
             envelopes.emplace (pair.first, pair.second->copy());
 
+        EnvelopeBuffers envelopeBuffers (other.m_envelopeBuffers);
         m_envelopes = std::move (envelopes);
+        m_envelopeBuffers = std::move (envelopeBuffers);
         return *this;
     }
 
@@ -170,7 +174,10 @@ public:
     DSP& operator= (DSP&& other) noexcept
     {
         if (this != &other)
+        {
             m_envelopes = std::move (other.m_envelopes);
+            m_envelopeBuffers = std::move (other.m_envelopeBuffers);
+        }
 
         return *this;
     }
-- 
2.43.0


From e750f25fd80602e1973588a6e3a26e5a1e95800a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:02 +0000
Subject: [PATCH 30/35] fix: a copied or moved EqualsTo keeps the details of
 its failure

---
 include/matchers/hart_equalsto.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/matchers/hart_equalsto.hpp b/include/matchers/hart_equalsto.hpp
index 65221c2..0e4c28b 100644
--- a/include/matchers/hart_equalsto.hpp
+++ b/include/matchers/hart_equalsto.hpp
@@ -43,13 +43,21 @@ public:
 
     EqualsTo (EqualsTo&& other) noexcept:
         m_referenceSignal (std::move (other.m_referenceSignal)),
-        m_toleranceLinear (other.m_toleranceLinear)
+        m_toleranceLinear (other.m_toleranceLinear),
+        m_failedFrame (other.m_failedFrame),
+        m_failedChannel (other.m_failedChannel),
+        m_failedObservedValue (other.m_failedObservedValue),
+        m_failedExpectedValue (other.m_failedExpectedValue)
     {
     }
 
     EqualsTo (const EqualsTo& other):
         m_referenceSignal (other.m_referenceSignal != nullptr ? other.m_referenceSignal->copy() : nullptr),
-        m_toleranceLinear (other.m_toleranceLinear)
+        m_toleranceLinear (other.m_toleranceLinear),
+        m_failedFrame (other.m_failedFrame),
+        m_failedChannel (other.m_failedChannel),
+        m_failedObservedValue (other.m_failedObservedValue),
+        m_failedExpectedValue (other.m_failedExpectedValue)
     {
     }
 
-- 
2.43.0


From fe332a37c0fcc231bca49553d3a686737632bbd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:21 +0000
Subject: [PATCH 31/35] fix: plot silent audio as a line instead of leaving it
 out

---
 include/hart_plot.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/hart_plot.hpp b/include/hart_plot.hpp
index 846ef90..8a60755 100644
--- a/include/hart_plot.hpp
+++ b/include/hart_plot.hpp
@@ -35,6 +35,13 @@ void plotData (const AudioBuffer<SampleType>& input, const AudioBuffer<SampleTyp
     const SampleType outputSamplePeak = output.getMagnitude (0, output.getNumFrames());
     outputSignalPlot.y.minor (outputSamplePeak).minor (-outputSamplePeak);
 
+    // There's no range to scale to in a silent audio, so it would not be drawn at all
+    if (inputSamplePeak == 0)
+        inputSignalPlot.y.linear (-1, 1);
+
+    if (outputSamplePeak == 0)
+        outputSignalPlot.y.linear (-1, 1);
+
     for (double t = 0.1; t < bufferSizeSeconds + 1e-6; t += 0.1)
     {
         inputSignalPlot.x.minor (t);
-- 
2.43.0


From e433bba74771c08c118e1de9b4156b7df39cdd7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:16 +0000
Subject: [PATCH 32/35] fix: show the phase of a SineSweep, and no stray comma,
 in its text representation

---
 include/signals/hart_sine_sweep.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/signals/hart_sine_sweep.hpp b/include/signals/hart_sine_sweep.hpp
index c1dd10d..769c0aa 100644
--- a/include/signals/hart_sine_sweep.hpp
+++ b/include/signals/hart_sine_sweep.hpp
@@ -189,8 +189,9 @@ public:
             << hzPrecision
             << m_startFrequencyHz << "_Hz, "
             << m_endFrequencyHz << "_Hz, "
-            << (m_type == SweepType::linear ? ", SweepType::linear" : "SweepType::log")
-            << (m_loop == Loop::yes ? ", Loop::yes)" : ", Loop::no)");
+            << (m_type == SweepType::linear ? "SweepType::linear" : "SweepType::log")
+            << (m_loop == Loop::yes ? ", Loop::yes, " : ", Loop::no, ")
+            << radPrecision << m_initialPhaseRadians << "_rad)";
     }
 
     HART_SIGNAL_DEFINE_COPY_AND_MOVE (SineSweep);
-- 
2.43.0


From 1ef2a2fb62ca17d89b9f8c1acfcc6fc88075e02e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:16 +0000
Subject: [PATCH 33/35] fix: show the tolerance of PeaksBelow in its text
 representation

---
 include/matchers/hart_peaksbelow.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/matchers/hart_peaksbelow.hpp b/include/matchers/hart_peaksbelow.hpp
index 88f0af9..de48603 100644
--- a/include/matchers/hart_peaksbelow.hpp
+++ b/include/matchers/hart_peaksbelow.hpp
@@ -27,6 +27,7 @@ public:
     /// @param toleranceLinear Absolute tolerance for comparing frames, in linear domain (not decibels)
     PeaksBelow (double thresholdDb, double toleranceLinear = 1e-3):
         m_thresholdDb ((SampleType) thresholdDb),
+        m_toleranceLinear ((SampleType) toleranceLinear),
         m_thresholdLinear (static_cast<SampleType> (decibelsToRatio (thresholdDb) + toleranceLinear))
     {
     }
@@ -79,13 +80,14 @@ public:
     {
         stream << "PeaksBelow ("
             << dbPrecision << m_thresholdDb << "_dB, "
-            << linPrecision << m_thresholdLinear << ')';
+            << linPrecision << m_toleranceLinear << ')';
     }
 
     HART_MATCHER_DEFINE_COPY_AND_MOVE (PeaksBelow);
 
 private:
     const SampleType m_thresholdDb;
+    const SampleType m_toleranceLinear;
     const SampleType m_thresholdLinear;
 
     size_t m_failedFrame = 0;
-- 
2.43.0


From 9ca8ab16fd6120e8c111853ebbba8b8d5bcae300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:16 +0000
Subject: [PATCH 34/35] fix: show a linear gain with the decimals of linear
 values

---
 include/dsp/hart_gainlinear.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dsp/hart_gainlinear.hpp b/include/dsp/hart_gainlinear.hpp
index 5b70120..c44becc 100644
--- a/include/dsp/hart_gainlinear.hpp
+++ b/include/dsp/hart_gainlinear.hpp
@@ -96,7 +96,7 @@ public:
 
     virtual void represent (std::ostream& stream) const override
     {
-        stream << dbPrecision << "GainLinear (" << m_initialGainLinear << ")";
+        stream << linPrecision << "GainLinear (" << m_initialGainLinear << ")";
     }
 
     /// @param id Only @ref GainLinear::gainLinear is accepted
-- 
2.43.0


From 4e56a7453d941d27835334d36de2bd6c5db47d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:51 +0000
Subject: [PATCH 35/35] fix: reject processing again after the DSP was returned

process() hands the DSP back, and then dereferenced null when called again
(as did withSampleRate()).
---
 include/hart_process_audio.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/hart_process_audio.hpp b/include/hart_process_audio.hpp
index 72dd92b..6f2573f 100644
--- a/include/hart_process_audio.hpp
+++ b/include/hart_process_audio.hpp
@@ -82,6 +82,9 @@ public:
         if (sampleRateHz <= 0)
             HART_THROW_OR_RETURN (hart::ValueError, "Sample rate should be a positive value in Hz", *this);
 
+        if (m_processor == nullptr)
+            HART_THROW_OR_RETURN (hart::StateError, "No DSP to set the sample rate for - it was already returned by process()!", *this);
+
         if (! m_processor->supportsSampleRate (sampleRateHz))
             HART_THROW_OR_RETURN (hart::SampleRateError, "Sample rate is not supported by the tested DSP", *this);
 
@@ -333,6 +336,9 @@ public:
     /// @details Call this after setting all the test parameters
     std::unique_ptr<DSP<SampleType>> process()
     {
+        if (m_processor == nullptr)
+            HART_THROW_OR_RETURN (hart::StateError, "No DSP to process with - it was already returned by process()!", nullptr);
+
         m_durationFrames = (size_t) std::round (m_sampleRateHz * m_durationSeconds);
 
         if (m_durationFrames == 0)
-- 
2.43.0

