From c466164d35c79e79c79c55ee17a8698c82e4ebce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:31 +0000
Subject: [PATCH 01/33] fix: restore the links of a temporarily unpatched block
 on errors

---
 klang/composite.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/klang/composite.py b/klang/composite.py
index b7fdbee..ee3d97d 100644
--- a/klang/composite.py
+++ b/klang/composite.py
@@ -43,10 +43,11 @@ def temporarily_unpatch(block):
     for src, dst in connections:
         src.disconnect(dst)
 
-    yield block
-
-    for src, dst in connections:
-        src.connect(dst)
+    try:
+        yield block
+    finally:
+        for src, dst in connections:
+            src.connect(dst)
 
 
 class Composite(Block):
-- 
2.43.0


From 2f66c6d5603f3b11a6ca3f0f110ebff0c3291319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:24 +0000
Subject: [PATCH 02/33] fix: release the sound card when setting up the audio
 stream fails

---
 klang/audio/klanggeber.py | 49 +++++++++++++++++++++------------------
 1 file changed, 26 insertions(+), 23 deletions(-)

diff --git a/klang/audio/klanggeber.py b/klang/audio/klanggeber.py
index 05ccd10..23cbf3f 100644
--- a/klang/audio/klanggeber.py
+++ b/klang/audio/klanggeber.py
@@ -266,32 +266,35 @@ def run_audio_engine(adc: Adc, dac: Dac, execute_all_blocks: Callable, duration:
         # Example: Callback Mode Audio I/O from
         # https://people.csail.mit.edu/hubert/pyaudio/docs/
         pa = pyaudio.PyAudio()
-        validate_sound_card_channels(pa, adc, dac)
-        assert D_TYPE is np.float32
-        capturedFrames = []
-        stream = pa.open(
-            rate=SAMPLING_RATE,
-            frames_per_buffer=BUFFER_SIZE,
-            channels=dac.nChannels,  # TODO: How to 1x input, 2x outputs?
-            format=pyaudio.paFloat32,
-            input=(adc.nChannels > 0),
-            output=(dac.nChannels > 0),
-            stream_callback=stream_callback,
-        )
-
         try:
-            logger.info('Starting up audio engine with default devices')
-            stream.start_stream()
-            while stream.is_active():
-                time.sleep(0.1)
-
-        except KeyboardInterrupt:
-            pass
+            validate_sound_card_channels(pa, adc, dac)
+            assert D_TYPE is np.float32
+            capturedFrames = []
+            stream = pa.open(
+                rate=SAMPLING_RATE,
+                frames_per_buffer=BUFFER_SIZE,
+                channels=dac.nChannels,  # TODO: How to 1x input, 2x outputs?
+                format=pyaudio.paFloat32,
+                input=(adc.nChannels > 0),
+                output=(dac.nChannels > 0),
+                stream_callback=stream_callback,
+            )
+
+            try:
+                logger.info('Starting up audio engine with default devices')
+                stream.start_stream()
+                while stream.is_active():
+                    time.sleep(0.1)
+
+            except KeyboardInterrupt:
+                pass
+
+            finally:
+                logger.info('Shutting down audio engine')
+                stream.stop_stream()
+                stream.close()
 
         finally:
-            logger.info('Shutting down audio engine')
-            stream.stop_stream()
-            stream.close()
             pa.terminate()
 
     if filepath:
-- 
2.43.0


From d47b56f87377d2cbebf38c2f226e5b2497e735a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:39 +0000
Subject: [PATCH 03/33] fix: an empty datagram does not end receiving

---
 klang/network.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/klang/network.py b/klang/network.py
index dc361d1..4766fd0 100644
--- a/klang/network.py
+++ b/klang/network.py
@@ -52,16 +52,14 @@ def receive_all_from(sock, bufsize=NETWORK_BUFFER_SIZE):
         bytes: Received data chunks.
     """
     try:
-        # This would be a use case for the Walrus Operator but we want support
-        # for <3.8
-        data = sock.recv(bufsize)
-        while data:
+        # An empty chunk is an empty datagram and not the end of the data
+        while True:
+            data = sock.recv(bufsize)
             if len(data) == bufsize:
                 fmt = 'Full input buffer (%d bytes)! Overflow?'
                 LOGGER.warning(fmt, bufsize)
 
             yield data
-            data = sock.recv(bufsize)
     except BlockingIOError:
         return
 
-- 
2.43.0


From dc01e5847f0c5a87154b9782c38bca549d9ebc2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:39 +0000
Subject: [PATCH 04/33] fix: a malformed datagram of any kind does not stop the
 receiver

---
 klang/network.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/klang/network.py b/klang/network.py
index 4766fd0..beae31a 100644
--- a/klang/network.py
+++ b/klang/network.py
@@ -144,15 +144,14 @@ class JsonCourier:
         """Yields all JSON decoded objects."""
         for data in receive_all_from(self.sock):
             #print('Received:', data)
-            string = data.decode()
-            while string:
-                try:
+            try:
+                string = data.decode()
+                while string:
                     obj, stop = self.decoder.raw_decode(string)
                     yield obj
                     string = string[stop:]
-                except json.JSONDecodeError as err:
-                    self.logger.error(err, exc_info=True)
-                    break
+            except Exception as err:  # Senders can send anything. pylint: disable=broad-except
+                self.logger.error(err, exc_info=True)
 
     def send_object(self, obj):
         """Send object to address as JSON."""
-- 
2.43.0


From c3958e0ceec76e486e24f6b6f2a4faa3eab58e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:29 +0000
Subject: [PATCH 05/33] fix: send arrays that are not contiguous in the order
 of their elements

---
 klang/network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/klang/network.py b/klang/network.py
index beae31a..5b0409f 100644
--- a/klang/network.py
+++ b/klang/network.py
@@ -68,7 +68,7 @@ def array_to_dict(arr):
     """Convert numpy array to JSON compatible dictionary using base 64
     encoding.
     """
-    raw = base64.b64encode(arr.data)
+    raw = base64.b64encode(arr.tobytes())
     return {
         'type': 'ndarray',
         'dtype': str(arr.dtype),
-- 
2.43.0


From 18fc899aca761fbeeac93cb95a935b3133ff45b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:22 +0000
Subject: [PATCH 06/33] fix: refuse ring buffer lengths that are not positive
 or exceed the capacity

---
 klang/ring_buffer.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/klang/ring_buffer.py b/klang/ring_buffer.py
index e1a19c5..cae9b09 100644
--- a/klang/ring_buffer.py
+++ b/klang/ring_buffer.py
@@ -31,6 +31,10 @@ class RingBuffer:
         if capacity is None:
             capacity = length
 
+        if not 0 < length <= capacity:
+            msg = f'Length {length} not positive or larger than max capacity {capacity}!'
+            raise ValueError(msg)
+
         self._length = length
         self.capacity = capacity
         self.bufferSize = bufferSize
@@ -52,8 +56,8 @@ class RingBuffer:
         """Set new length (and adjust current read / write position). Can not be
         bigger than allocated max capacity.
         """
-        if value > self.capacity:
-            msg = f'New length {value} larger than max capacity {self.capacity}!'
+        if not 0 < value <= self.capacity:
+            msg = f'New length {value} not positive or larger than max capacity {self.capacity}!'
             raise ValueError(msg)
 
         self._length = value
-- 
2.43.0


From b6d4b42fe779753d58f1ae441772663c0e4879d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:22 +0000
Subject: [PATCH 07/33] fix: delay keeps the old samples before overwriting
 them

---
 klang/audio/effects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/klang/audio/effects.py b/klang/audio/effects.py
index 7023a79..ae7d445 100644
--- a/klang/audio/effects.py
+++ b/klang/audio/effects.py
@@ -169,7 +169,7 @@ class Delay(Block):
             nChannels, _ = new.shape
             new = new.sum(axis=0) / nChannels
 
-        old = self.ring.peek()
+        old = self.ring.peek().copy()
         self.ring.extend(new + self.feedback * old)
         self.output.set_value(blend(new, old, self.drywet))
 
-- 
2.43.0


From 3c17202d8d7b0bdcde7c2384758b3ac487bf5790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:22 +0000
Subject: [PATCH 08/33] fix: check the delay time after converting note values

---
 klang/audio/effects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/klang/audio/effects.py b/klang/audio/effects.py
index ae7d445..1c802c0 100644
--- a/klang/audio/effects.py
+++ b/klang/audio/effects.py
@@ -146,12 +146,12 @@ class Delay(Block):
             feedback (float): Amount of feedback.
             drywet (float): Mixture between dry and effected signal.
         """
+        time = compute_duration(time)
         self.validate_delay_time(time)
         super().__init__(nInputs=1, nOutputs=1)
         self.feedback = feedback
         self.drywet = drywet
 
-        time = compute_duration(time)
         length = int(time * SAMPLING_RATE)
         capacity = int(self.MAX_TIME * SAMPLING_RATE)
 
-- 
2.43.0


From 9bc989103ae5a3f28f6c3f0a77b17b5be2dc9ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:11 +0000
Subject: [PATCH 09/33] fix: native filters check the input conversion and ask
 for contiguous samples

---
 klang/audio/_filters.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/klang/audio/_filters.c b/klang/audio/_filters.c
index 3430019..2800090 100644
--- a/klang/audio/_filters.c
+++ b/klang/audio/_filters.c
@@ -198,9 +198,14 @@ parse_input_array(PyObject *args)
         return NULL;
     }
 
-    inArray = PyArray_FROM_OT(inArray, NPY_DOUBLE);
+    inArray = (PyArrayObject *) PyArray_FROM_OTF((PyObject *) inArray, NPY_DOUBLE, NPY_ARRAY_IN_ARRAY);
+    if (!inArray) {
+        return NULL;
+    }
+
     if (PyArray_NDIM(inArray) != 1) {
         PyErr_SetString(PyExc_ValueError, "samples have to be ndim 1!");
+        Py_DECREF(inArray);
         return NULL;
     }
 
-- 
2.43.0


From f3a5e9feff30996874de69b4de4b6cb1c3753116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:11 +0000
Subject: [PATCH 10/33] fix: native filters release the converted input array

---
 klang/audio/_filters.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/klang/audio/_filters.c b/klang/audio/_filters.c
index 2800090..b0f3e02 100644
--- a/klang/audio/_filters.c
+++ b/klang/audio/_filters.c
@@ -245,6 +245,7 @@ ForwardCombFilter_filter(RingBufferFilterObject *self, PyObject *args)
     npy_intp *dims = PyArray_DIMS(inArray);
     PyArrayObject *outArray = init_output_array(nd, dims);
     if (!outArray) {
+        Py_DECREF(inArray);
         return NULL;
     }
 
@@ -255,6 +256,7 @@ ForwardCombFilter_filter(RingBufferFilterObject *self, PyObject *args)
         RingBuffer_append(self->ringBuffer, x[i]);
     }
 
+    Py_DECREF(inArray);
     return PyArray_Return(outArray);
 }
 
@@ -271,6 +273,7 @@ BackwardCombFilter_filter(RingBufferFilterObject *self, PyObject *args)
     npy_intp *dims = PyArray_DIMS(inArray);
     PyArrayObject *outArray = init_output_array(nd, dims);
     if (!outArray) {
+        Py_DECREF(inArray);
         return NULL;
     }
 
@@ -281,6 +284,7 @@ BackwardCombFilter_filter(RingBufferFilterObject *self, PyObject *args)
         RingBuffer_append(self->ringBuffer, y[i]);
     }
 
+    Py_DECREF(inArray);
     return PyArray_Return(outArray);
 }
 
@@ -297,6 +301,7 @@ EchoFilter_filter(RingBufferFilterObject *self, PyObject *args)
     npy_intp *dims = PyArray_DIMS(inArray);
     PyArrayObject *outArray = init_output_array(nd, dims);
     if (!outArray) {
+        Py_DECREF(inArray);
         return NULL;
     }
 
@@ -307,6 +312,7 @@ EchoFilter_filter(RingBufferFilterObject *self, PyObject *args)
         RingBuffer_append(self->ringBuffer, self->alpha * y[i] + x[i]);
     }
 
+    Py_DECREF(inArray);
     return PyArray_Return(outArray);
 }
 
-- 
2.43.0


From 2ed675d9c665cf8dcf703665e2de236098e3ef8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:11 +0000
Subject: [PATCH 11/33] fix: native filters refuse an empty ring buffer

---
 klang/audio/_filters.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/klang/audio/_filters.c b/klang/audio/_filters.c
index b0f3e02..35ff249 100644
--- a/klang/audio/_filters.c
+++ b/klang/audio/_filters.c
@@ -40,8 +40,8 @@ typedef struct {
  */
 RingBuffer* RingBuffer_create(size_t length)
 {
-    if (length > MAX_RING_BUFFER_CAPACITY) {
-        perror("RingBuffer_create(): length parameter to large!");
+    if (length < 1 || length > MAX_RING_BUFFER_CAPACITY) {
+        perror("RingBuffer_create(): length parameter zero or to large!");
         return NULL;
     }
 
-- 
2.43.0


From 5d09bd66bb470ae1b4f26184e2e24f9f500294e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:11 +0000
Subject: [PATCH 12/33] fix: release a filter whose ring buffer could not be
 created

---
 klang/audio/_filters.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/klang/audio/_filters.c b/klang/audio/_filters.c
index 35ff249..69bbd55 100644
--- a/klang/audio/_filters.c
+++ b/klang/audio/_filters.c
@@ -132,6 +132,7 @@ RingBufferFilter_new(PyTypeObject *type, PyObject *args, PyObject *kwargs)
     self->ringBuffer = RingBuffer_create(length);
     if (!self->ringBuffer) {
         PyErr_SetString(PyExc_RuntimeError, "Could not initialize RingBuffer!");
+        Py_DECREF(self);
         return NULL;
     }
 
-- 
2.43.0


From 7d66cbf1590ec969f48632383c438b8f4f9b0c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:11 +0000
Subject: [PATCH 13/33] fix: parse native envelope flags into variables of the
 right size

---
 klang/audio/_envelope.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/klang/audio/_envelope.c b/klang/audio/_envelope.c
index 03f469f..0df13c6 100644
--- a/klang/audio/_envelope.c
+++ b/klang/audio/_envelope.c
@@ -523,12 +523,16 @@ Envelope_init(Envelope *self, PyObject *args, PyObject *kwargs)
         "attack", "decay", "sustain", "release", "dt", "overshoot", "retrigger",
         "loop", NULL
     };
+    int retrigger = self->retrigger;
+    int loop = self->loop;
     if (!PyArg_ParseTupleAndKeywords(args, kwargs, "ddddd|dpp", kwlist, &self->attack,
                 &self->decay, &self->sustain, &self->release, &self->dt, &self->overshoot,
-                &self->retrigger, &self->loop)
+                &retrigger, &loop)
     )
         return -1;
 
+    self->retrigger = retrigger;
+    self->loop = loop;
     self->overshoot = clip(self->overshoot, 1e-9, 1e9);  // Headroom
     Envelope_compute_base_values_and_coefficients(self);
     return 0;
-- 
2.43.0


From 37ef1984129ff2483fc041d72307a8ba2a4854cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:11 +0000
Subject: [PATCH 14/33] fix: report errors when evaluating the gate of the
 native envelope

---
 klang/audio/_envelope.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/klang/audio/_envelope.c b/klang/audio/_envelope.c
index 0df13c6..69167e4 100644
--- a/klang/audio/_envelope.c
+++ b/klang/audio/_envelope.c
@@ -553,7 +553,10 @@ Envelope_init(Envelope *self, PyObject *args, PyObject *kwargs)
 static PyObject *
 Envelope_gate(Envelope *self, PyObject *args)
 {
-    bool trigger = PyObject_IsTrue(args);
+    int trigger = PyObject_IsTrue(args);
+    if (trigger < 0)
+        return NULL;
+
     if (DEBUG) printf("Envelope_gate(%i)\n", trigger);
     if (trigger) {
         self->enabled = true;
-- 
2.43.0


From b0d4ccd765c77b7687255f6e14cf5089eace7978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:11 +0000
Subject: [PATCH 15/33] fix: deleting a parameter of the native envelope is an
 error and no crash

---
 klang/audio/_envelope.c | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/klang/audio/_envelope.c b/klang/audio/_envelope.c
index 69167e4..aec95b7 100644
--- a/klang/audio/_envelope.c
+++ b/klang/audio/_envelope.c
@@ -198,6 +198,23 @@ Envelope_compute_base_values_and_coefficients(Envelope *self)
 }
 
 
+/**
+ * Convert new attribute value to double.
+ *
+ * @param value New value. NULL when the attribute gets deleted.
+ */
+static double
+value_as_double(PyObject *value)
+{
+    if (!value) {
+        PyErr_SetString(PyExc_ValueError, "Can not delete attribute!");
+        return -1.;
+    }
+
+    return PyFloat_AsDouble(value);
+}
+
+
 // Note: Getters and setters for attack, decay, sustain and release. Via
 // PyGetSetDef because we need to recompute the base values and coefficients.
 
@@ -220,7 +237,7 @@ Envelope_get_attack(Envelope *self, void *closure)
 static int
 Envelope_set_attack(Envelope *self, PyObject *value, void *closure)
 {
-    double attack = PyFloat_AsDouble(value);
+    double attack = value_as_double(value);
     if (PyErr_Occurred()) {
         PyErr_SetString(PyExc_ValueError, "Could not cast *value to double!");
         return -1;
@@ -255,7 +272,7 @@ Envelope_get_decay(Envelope *self, void *closure)
 static int
 Envelope_set_decay(Envelope *self, PyObject *value, void *closure)
 {
-    double decay = PyFloat_AsDouble(value);
+    double decay = value_as_double(value);
     if (PyErr_Occurred()) {
         PyErr_SetString(PyExc_ValueError, "Could not cast *value to double!");
         return -1;
@@ -290,7 +307,7 @@ Envelope_get_sustain(Envelope *self, void *closure)
 static int
 Envelope_set_sustain(Envelope *self, PyObject *value, void *closure)
 {
-    double sustain  = PyFloat_AsDouble(value);
+    double sustain  = value_as_double(value);
     if (PyErr_Occurred()) {
         PyErr_SetString(PyExc_ValueError, "Could not cast *value to double!");
         return -1;
@@ -325,7 +342,7 @@ Envelope_get_release(Envelope *self, void *closure)
 static int
 Envelope_set_release(Envelope *self, PyObject *value, void *closure)
 {
-    double release = PyFloat_AsDouble(value);
+    double release = value_as_double(value);
     if (PyErr_Occurred()) {
         PyErr_SetString(PyExc_ValueError, "Could not cast *value to double!");
         return -1;
@@ -360,7 +377,7 @@ Envelope_get_overshoot(Envelope *self, void *closure)
 static int
 Envelope_set_overshoot(Envelope *self, PyObject *value, void *closure)
 {
-    double overshoot = PyFloat_AsDouble(value);
+    double overshoot = value_as_double(value);
     if (PyErr_Occurred()) {
         PyErr_SetString(PyExc_ValueError, "Could not cast *value to double!");
         return -1;
-- 
2.43.0


From 03f1f3f2ced16098e70665896070a24c041d7574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:11 +0000
Subject: [PATCH 16/33] fix: do not leak the envelope module when numpy is
 missing

---
 klang/audio/_envelope.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/klang/audio/_envelope.c b/klang/audio/_envelope.c
index aec95b7..ac6621a 100644
--- a/klang/audio/_envelope.c
+++ b/klang/audio/_envelope.c
@@ -737,6 +737,8 @@ static PyModuleDef envelopeModuleDef = {
 PyMODINIT_FUNC
 PyInit__envelope(void)
 {
+    import_array();
+
     PyObject* module;
     if (PyType_Ready(&EnvelopeType) < 0)
         return NULL;
@@ -745,8 +747,6 @@ PyInit__envelope(void)
     if (module == NULL)
         return NULL;
 
-    import_array();
-
     Py_INCREF(&EnvelopeType);
     if (PyModule_AddObject(module, "Envelope", (PyObject *)&EnvelopeType)) {
         Py_DECREF(&EnvelopeType);
-- 
2.43.0


From c16a7b066a990c302d391549fe2b09c21203854f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:11 +0000
Subject: [PATCH 17/33] fix: do not release filter types the module already
 owns

---
 klang/audio/_filters.c | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/klang/audio/_filters.c b/klang/audio/_filters.c
index 69bbd55..f266739 100644
--- a/klang/audio/_filters.c
+++ b/klang/audio/_filters.c
@@ -407,6 +407,22 @@ static PyModuleDef filtersModule = {
 };
 
 
+/**
+ * Add type to module. Keeps the reference count of the type balanced.
+ */
+static int
+add_type(PyObject *module, const char *name, PyTypeObject *type)
+{
+    Py_INCREF(type);
+    if (PyModule_AddObject(module, name, (PyObject *) type)) {
+        Py_DECREF(type);
+        return -1;
+    }
+
+    return 0;
+}
+
+
 PyMODINIT_FUNC
 PyInit__filters(void)
 {
@@ -427,19 +443,12 @@ PyInit__filters(void)
         return NULL;
     }
 
-    Py_INCREF(&ForwardCombFilterType);
-    Py_INCREF(&BackwardCombFilterType);
-    Py_INCREF(&EchoFilterType);
-
     if (
-        PyModule_AddObject(module, "ForwardCombFilter", (PyObject *) &ForwardCombFilterType)
-        || PyModule_AddObject(module, "BackwardCombFilter", (PyObject *) &BackwardCombFilterType)
-        || PyModule_AddObject(module, "EchoFilter", (PyObject *) &EchoFilterType)
+        add_type(module, "ForwardCombFilter", &ForwardCombFilterType)
+        || add_type(module, "BackwardCombFilter", &BackwardCombFilterType)
+        || add_type(module, "EchoFilter", &EchoFilterType)
     ) {
         PyErr_SetString(PyExc_RuntimeError, "Could not add types to _filters module!");
-        Py_DECREF(&ForwardCombFilterType);
-        Py_DECREF(&BackwardCombFilterType);
-        Py_DECREF(&EchoFilterType);
         Py_DECREF(module);
         return NULL;
     }
-- 
2.43.0


From df308b9c83c0cc1787a9ab078314d77a6543284b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:06 +0000
Subject: [PATCH 18/33] fix: looping sample plays its end before its start and
 stays inside the trimmed range

---
 klang/audio/sampling.py | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/klang/audio/sampling.py b/klang/audio/sampling.py
index fd0ee98..924633f 100644
--- a/klang/audio/sampling.py
+++ b/klang/audio/sampling.py
@@ -268,21 +268,17 @@ class Sample:
         start = self.currentIndex
         stop = start + nFrames
         reachedEnd = (stop >= self.stop)
-        if reachedEnd:
-            if self.loop:
-                stop = (stop % self.stop) + self.start
-            else:
-                # Block for future uses
-                stop = self.stop
-
+        if reachedEnd and self.loop:
+            # Continue with the start after the end (as often as necessary)
+            period = self.stop - self.start
+            offsets = np.arange(start - self.start, stop - self.start) % period
+            self.currentIndex = self.start + (stop - self.start) % period
+            return self.data[self.start + offsets]
+
+        # Block for future uses if not looping
+        stop = min(stop, self.stop)
         self.currentIndex = stop
-        if start <= stop:
-            return self.data[start:stop]
-
-        return np.concatenate([
-            self.data[self.start:stop],
-            self.data[start:self.stop],
-        ])
+        return self.data[start:stop]
 
     def read(self, nFrames=BUFFER_SIZE):
         """Get next samples."""
-- 
2.43.0


From 17ac52849a57719d8bcfffde688592dfd1995ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:57 +0000
Subject: [PATCH 19/33] fix: distance of an empty name, looking it up is a
 value error

---
 klang/util.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/klang/util.py b/klang/util.py
index 6206a65..d1e5173 100644
--- a/klang/util.py
+++ b/klang/util.py
@@ -58,7 +58,6 @@ def levenshtein(first, second, deletionCost=1, insertionCost=1, substitutionCost
     """
     nRows = len(first) + 1
     nCols = len(second) + 1
-    assert nRows > 1 and nCols > 1
     costs = np.zeros((nRows, nCols), dtype=int)
     costs[:, 0] = np.arange(nRows)
     costs[0, :] = np.arange(nCols)
@@ -70,7 +69,7 @@ def levenshtein(first, second, deletionCost=1, insertionCost=1, substitutionCost
                 costs[row-1][col-1] + substitutionCost * int(a != b),
             )
 
-    return costs[row, col]
+    return costs[-1, -1]
 
 
 def _filter_values(dct, value):
-- 
2.43.0


From 05d0faccccc9f98479836843aeeb7de224cc5b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:10 +0000
Subject: [PATCH 20/33] fix: vietnamese scale of harmonics had a step of no
 semitones and got a wrong code

---
 klang/music/data/scales.csv | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/klang/music/data/scales.csv b/klang/music/data/scales.csv
index ff7b47d..ed8c0ab 100644
--- a/klang/music/data/scales.csv
+++ b/klang/music/data/scales.csv
@@ -56,7 +56,7 @@ super locrian scale,1,2,1,2,2,2,2
 tritone scale,1,3,2,1,3,2
 two-semitone tritone scale,1,1,4,1,1,4
 ukrainian dorian scale,2,1,3,1,2,1,2
-vietnamese scale of harmonics,3,1,0,3,4,1
+vietnamese scale of harmonics,3,1,3,4,1
 whole tone scale,2,2,2,2,2,2
 wholehalf,2,1,2,1,2,1,2,1
 wholetone,2,2,2,2,2,2
-- 
2.43.0


From bf274fa67bf5aebc77d5a5147e7f24e8cb462589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:10 +0000
Subject: [PATCH 21/33] fix: note names with mixed accidentals are a value
 error

---
 klang/music/pitch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/klang/music/pitch.py b/klang/music/pitch.py
index 59080c3..746ffe6 100644
--- a/klang/music/pitch.py
+++ b/klang/music/pitch.py
@@ -20,7 +20,7 @@ PITCH_NAMES = ['C', 'C#', 'D', 'D#', 'E', 'F', 'F#', 'G', 'G#', 'A', 'A#', 'B']
 CIRCLE_OF_FIFTHS = (7 * PITCH_CLASSES) % DODE
 """array: Pitches of the circle of fifths."""
 
-SCIENTIFIC_PITCH_NOTATION_RE = re.compile(r'([CDEFGAB])([#b]{0,2})([-0123456789]+)')
+SCIENTIFIC_PITCH_NOTATION_RE = re.compile(r'([CDEFGAB])(#{0,2}|b{0,2})([-0123456789]+)')
 """re.pattern: Regex pattern for scientific note name."""
 
 ACCIDENTAL_SHIFTS = {
-- 
2.43.0


From 229cc4035a438ff8ff29709d5242f369d699aecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:00 +0000
Subject: [PATCH 22/33] fix: clock computes its phase from the value of its
 frequency input

---
 klang/audio/sync.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/klang/audio/sync.py b/klang/audio/sync.py
index ca6c27b..af2d57e 100644
--- a/klang/audio/sync.py
+++ b/klang/audio/sync.py
@@ -3,6 +3,7 @@ from klang.audio.helpers import get_silence, get_time
 from klang.audio.oscillators import Phasor
 from klang.block import Block
 from klang.constants import TAU
+from klang.music.tempo import compute_rate
 
 
 class Clock(Block):
@@ -33,7 +34,8 @@ class Clock(Block):
     def update(self):
         t = get_time(BUFFER_SIZE)
         currentPhase = self.phasor.currentPhase
-        phase = (TAU * self.frequency * t + currentPhase) % TAU
+        frequency = compute_rate(self.frequency.value)
+        phase = (TAU * frequency * t + currentPhase) % TAU
         if self.edge == 'rising':
             active = (phase < self.duty)
         else:
-- 
2.43.0


From c561c9f54aabca3ea76c48231d98c07e39a219d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:03 +0000
Subject: [PATCH 23/33] fix: describing filters, keyboards, oscillators and
 micro rhythms as text raised

---
 klang/audio/effects.py     | 6 +++---
 klang/audio/oscillators.py | 2 +-
 klang/keyboard.py          | 2 +-
 klang/music/rhythm.py      | 2 +-
 4 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/klang/audio/effects.py b/klang/audio/effects.py
index 1c802c0..4d51241 100644
--- a/klang/audio/effects.py
+++ b/klang/audio/effects.py
@@ -274,9 +274,9 @@ class FilterCoefficients:
         return self.coefficients[i.clip(0, length-1)]
 
     def __str__(self):
-        infos = [self.coefficients.design_func.__name__]
-        infos.extend('%s' % arg for arg in self.coefficients.args)
-        infos.extend('%s=%s' % keyvalue for keyvalue in self.coefficients.kwargs.items())
+        infos = [self.design_func.__name__]
+        infos.extend('%s' % arg for arg in self.args)
+        infos.extend('%s=%s' % keyvalue for keyvalue in self.kwargs.items())
         return '%s(%s)' % (type(self).__name__, ', '.join(infos))
 
 
diff --git a/klang/audio/oscillators.py b/klang/audio/oscillators.py
index 912ec3c..f546b9d 100644
--- a/klang/audio/oscillators.py
+++ b/klang/audio/oscillators.py
@@ -99,7 +99,7 @@ class Phasor(Block):
         self.output.set_value(self.sample())
 
     def __str__(self):
-        return '%s(%.1f Hz)' % (type(self).__name__, self.frequency.value)
+        return '%s(%.1f Hz)' % (type(self).__name__, np.mean(compute_rate(self.frequency.value)))
 
     def __deepcopy__(self, memo):
         return type(self)(
diff --git a/klang/keyboard.py b/klang/keyboard.py
index 5334f94..e35e7b0 100644
--- a/klang/keyboard.py
+++ b/klang/keyboard.py
@@ -59,7 +59,7 @@ class Keyboard(Block):
     def __str__(self):
         return '%s(%s)' % (
             self.__class__.__name__,
-            'running' if self.keyWorker.isAlive() else 'not running'
+            'running' if self.keyWorker.is_alive() else 'not running'
         )
 
 
diff --git a/klang/music/rhythm.py b/klang/music/rhythm.py
index 00b6fc4..a1454dd 100644
--- a/klang/music/rhythm.py
+++ b/klang/music/rhythm.py
@@ -166,7 +166,7 @@ class MicroRhyhtm(Block):
 
         infos.extend([
             format_notes(self.notes),
-            'phrasing: %.1f' % self.phrasing.value,
+            'phrasing: %.1f' % np.mean(self.phrasing.value),
             'beatValue: %s' % self.beatValue,
         ])
         return '%s(notes: %s)' % (type(self).__name__, ', '.join(infos))
-- 
2.43.0


From db64d18b76ddf7cc7914dd078be1e98bf8f5cc19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:43 +0000
Subject: [PATCH 24/33] fix: changing the temperament of the musical keyboard
 looked up a name by number

---
 klang/keyboard.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/klang/keyboard.py b/klang/keyboard.py
index e35e7b0..4180cf1 100644
--- a/klang/keyboard.py
+++ b/klang/keyboard.py
@@ -148,8 +148,8 @@ class MusicalKeyboard(Keyboard):
         except ValueError:
             return
 
-        if 0 <= nr < len(TEMPERAMENTS):
-            self.temperament = TEMPERAMENTS[nr]
+        if 0 <= nr < len(self.TEMPERAMENTS):
+            self.temperament = self.TEMPERAMENTS[nr]
             print('Switched to %s' % self.temperament)
 
     def bypass_other_keys(self, key):
-- 
2.43.0


From c5b7375837e33be87a268a9cbc9800f419a38906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:43 +0000
Subject: [PATCH 25/33] fix: musical keyboard releases the note which has been
 pressed

---
 klang/keyboard.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/klang/keyboard.py b/klang/keyboard.py
index 4180cf1..7807f91 100644
--- a/klang/keyboard.py
+++ b/klang/keyboard.py
@@ -109,13 +109,21 @@ class MusicalKeyboard(Keyboard):
         self.octave = REF_OCTAVE
         self.velocity = 1.
         self.temperament = defaultTemperament
+        self.playing = {}
 
     def play_note(self, char, noteOn=True):
         """Play music note (note-on and note-off)."""
-        pitch = self.CHAR_2_BASE_PITCH[char] + self.octave * DODE
-        frequency = self.temperament.pitch_2_frequency(pitch)
-        velocity = self.velocity if noteOn else self.SILENT
-        note = Note(pitch, velocity=velocity, frequency=frequency)
+        if noteOn:
+            pitch = self.CHAR_2_BASE_PITCH[char] + self.octave * DODE
+            frequency = self.temperament.pitch_2_frequency(pitch)
+            note = Note(pitch, velocity=self.velocity, frequency=frequency)
+            self.playing[char] = note
+        elif char in self.playing:
+            # Octave and tuning can have changed since the note-on
+            note = self.playing.pop(char)._replace(velocity=self.SILENT)
+        else:
+            return
+
         self.output.send(note)
 
     def change_octave(self, char):
-- 
2.43.0


From 02f4f0d4108dfef9673b14bdb018dd8809edb188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:43 +0000
Subject: [PATCH 26/33] fix: octave of the musical keyboard left the valid
 pitches

---
 klang/keyboard.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/klang/keyboard.py b/klang/keyboard.py
index 7807f91..0ae4079 100644
--- a/klang/keyboard.py
+++ b/klang/keyboard.py
@@ -90,6 +90,9 @@ class MusicalKeyboard(Keyboard):
     QUIETER = -.1
     """float: Quieter decrement."""
 
+    OCTAVES = (0, 9)
+    """tuple: Lowest and highest octave where all keys are valid pitches."""
+
     TEMPERAMENTS = list(TEMPERAMENTS.values())
     """list: Temperament values. Makes the first 10 temperament accessible."""
 
@@ -130,11 +133,13 @@ class MusicalKeyboard(Keyboard):
         """Change current octave up / down."""
         if char == 'y':
             fmt = 'One octave down to %d'
-            self.octave -= 1
+            octave = self.octave - 1
         else:
             fmt = 'One octave up to %d'
-            self.octave += 1
+            octave = self.octave + 1
 
+        lowest, highest = self.OCTAVES
+        self.octave = min(max(octave, lowest), highest)
         print(fmt % self.octave)
 
     def change_velocity(self, char):
-- 
2.43.0


From 98c47eda9c96eefe822052e2ffb140f32f5d8870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:38 +0000
Subject: [PATCH 27/33] fix: arpeggiator kept sending note-offs after its last
 note was released

---
 klang/arpeggiator.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/klang/arpeggiator.py b/klang/arpeggiator.py
index 2900ba0..6ce0ac2 100644
--- a/klang/arpeggiator.py
+++ b/klang/arpeggiator.py
@@ -185,6 +185,7 @@ class Arpeggiator(Composite):
             if self.prevNote:
                 noteOff = self.prevNote.silence()
                 self.output.send(noteOff)
+                self.prevNote = None
 
             if self.arpeggio:
                 note = next(self.arpeggio)
-- 
2.43.0


From 4d6fd944d6a921d7c29c434110756488ca39985d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:57 +0000
Subject: [PATCH 28/33] fix: note-offs in the cycle of their note-on got lost
 in polyphonic synthesizers

---
 klang/audio/synthesizer.py | 2 ++
 klang/audio/voices.py      | 4 ++--
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/klang/audio/synthesizer.py b/klang/audio/synthesizer.py
index b688f77..265423e 100644
--- a/klang/audio/synthesizer.py
+++ b/klang/audio/synthesizer.py
@@ -202,11 +202,13 @@ class PolyphonicSynthesizer(Synthesizer):
             #print('Play new note', note)
             voice = next(self.freeVoice)
             voice.input.push(note)
+            voice.currentPitch = note.pitch
         else:
             #print('Kill old note', note)
             for voice in self.voices:
                 if voice.currentPitch == note.pitch:
                     voice.input.push(note)
+                    voice.currentPitch = None
 
     def update(self):
         super().update()
diff --git a/klang/audio/voices.py b/klang/audio/voices.py
index 02f8bf8..de4608f 100644
--- a/klang/audio/voices.py
+++ b/klang/audio/voices.py
@@ -39,7 +39,7 @@ class Voice(Composite):
         self.oscillator = oscillator
         self.envelope = envelope
         self.amplitude = 0.
-        self.currentPitch = 0
+        self.currentPitch = None
         self.update_internal_exec_order(self.oscillator, self.envelope)
 
     @property
@@ -61,7 +61,7 @@ class Voice(Composite):
                 self.oscillator.frequency.set_value(note.frequency)
                 self.currentPitch = note.pitch
             else:
-                self.currentPitch = 0
+                self.currentPitch = None
 
     def update(self):
         self.process_incoming_notes()
-- 
2.43.0


From 7a82dd22ceac09a9815019044664c6d8dd779453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:00 +0000
Subject: [PATCH 29/33] fix: callers could modify memoised panning amplitudes
 and filter coefficients

---
 klang/audio/effects.py | 8 ++++----
 klang/audio/panning.py | 4 +++-
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/klang/audio/effects.py b/klang/audio/effects.py
index 4d51241..cf747b6 100644
--- a/klang/audio/effects.py
+++ b/klang/audio/effects.py
@@ -31,7 +31,7 @@ __all__ = [
 
 
 @functools.lru_cache()
-def low_pass_coefficients(frequency: float) -> Tuple[list, list]:
+def low_pass_coefficients(frequency: float) -> Tuple[tuple, tuple]:
     """Filter coefficients for single pole low pass IIR filter. For decay use
     frequency = 1. / decay. 0 and INF are supported as well.
 
@@ -45,14 +45,14 @@ def low_pass_coefficients(frequency: float) -> Tuple[list, list]:
         - https://tomroelandts.com/articles/low-pass-single-pole-iir-filter
     """
     if frequency == 0:
-        return [0.], [1., -1.]
+        return (0.,), (1., -1.)
 
     if frequency == INF:
-        return [1.], [1., 0.]
+        return (1.,), (1., 0.)
 
     a1 = -math.exp(-TAU * frequency / SAMPLING_RATE)
     b0 = 1. - abs(a1)
-    return [b0], [1., a1]
+    return (b0,), (1., a1)
 
 
 class Gain(Block):
diff --git a/klang/audio/panning.py b/klang/audio/panning.py
index a4b1981..658a338 100644
--- a/klang/audio/panning.py
+++ b/klang/audio/panning.py
@@ -75,10 +75,12 @@ def panning_amplitudes(panLevel, mode='constant_power', panLaw=None):
             centerValue = np.sqrt(.5 * np.cos(TAU / 8))
             alpha = pan_law_exponent(panLaw, centerValue)
 
-    return np.array([
+    amplitudes = np.array([
         [left ** alpha],
         [right ** alpha],
     ])
+    amplitudes.setflags(write=False)
+    return amplitudes
 
 
 def pan_signal(signal, panLevel, mode='constant_power', panLaw=None):
-- 
2.43.0


From e5c2d907fe1ee8d6abca6541ca92520b8347afc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:28 +0000
Subject: [PATCH 30/33] fix: AudioCombiner overwrote the buffer it had
 published

---
 klang/audio/effects.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/klang/audio/effects.py b/klang/audio/effects.py
index cf747b6..32f975e 100644
--- a/klang/audio/effects.py
+++ b/klang/audio/effects.py
@@ -202,9 +202,12 @@ class AudioCombiner(Block):
         self.output.set_value(silence)
 
     def update(self):
-        for input_, buf in zip(self.inputs, self.output.value):
+        samples = np.empty((self.nInputs, BUFFER_SIZE))
+        for input_, buf in zip(self.inputs, samples):
             buf[:] = input_.value
 
+        self.output.set_value(samples)
+
 
 class StereoDelay(Composite):
 
-- 
2.43.0


From 09727e9412bd7a4ef30afd82a7e1c9f11f0f689a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:14 +0000
Subject: [PATCH 31/33] fix: the default bit reduction of Bitcrusher was
 refused by its own check

---
 klang/audio/effects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/klang/audio/effects.py b/klang/audio/effects.py
index 32f975e..0a61d15 100644
--- a/klang/audio/effects.py
+++ b/klang/audio/effects.py
@@ -427,7 +427,7 @@ class Bitcrusher(Block):
     Reduce bit depth resolution.
     """
 
-    def __init__(self, nBits=16):
+    def __init__(self, nBits=8):
         """Kwargs:
             nBits (int): Bit reduction.
         """
-- 
2.43.0


From 4961368187dd9b26deabfc202dbdb254f0b5c762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:01 +0000
Subject: [PATCH 32/33] fix: an end of zero was taken for no end when trimming
 a sample

---
 klang/audio/sampling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/klang/audio/sampling.py b/klang/audio/sampling.py
index 924633f..bec2fc8 100644
--- a/klang/audio/sampling.py
+++ b/klang/audio/sampling.py
@@ -248,7 +248,7 @@ class Sample:
     def trim(self, start=0, stop=None):
         """Trim playback boundaries to [start, stop)."""
         start = int(start)
-        stop = int(stop or self.length)
+        stop = self.length if stop is None else int(stop)
         assert 0 <= start < stop <= self.length  # TODO(atheler): start <= stop?
         self.start = start
         self.stop = stop
-- 
2.43.0


From cd27b758bdd4dc7b47e388da2346654667431eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:10 +0000
Subject: [PATCH 33/33] fix: the channel of MidiOut was ignored

---
 klang/midi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/klang/midi.py b/klang/midi.py
index df26b93..788888f 100644
--- a/klang/midi.py
+++ b/klang/midi.py
@@ -53,7 +53,7 @@ class MidiOut(Block):
 
     def update(self):
         for note in self.input.receive():
-            msg = note_to_midi_message(note)
+            msg = note_to_midi_message(note, self.channel)
             self.midiout.send_message(msg)
 
     def __del__(self):
-- 
2.43.0

