From 7fc0302a3c4fd6c5a291f10a325a802de5925897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:17:36 +0000
Subject: [PATCH 01/43] fix: send every fragment of the runspace pool creation
 messages

Only the first fragment went out in the creationXml, the rest were dropped
when the init message (large application arguments) needs more than one.
---
 src/pypsrp/powershell.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pypsrp/powershell.py b/src/pypsrp/powershell.py
index 62f1194..26babbb 100644
--- a/src/pypsrp/powershell.py
+++ b/src/pypsrp/powershell.py
@@ -565,6 +565,10 @@ class RunspacePool(object):
         self.shell.open(options, open_content)
         self.state = RunspacePoolState.NEGOTIATION_SENT
 
+        # send the remaining fragments that did not fit in the create request
+        for fragment in fragments:
+            self.shell.send("stdin", fragment)
+
         responses = []
         while self.state == RunspacePoolState.NEGOTIATION_SENT:
             responses.extend(self._receive())
-- 
2.43.0


From 672b4fe643c3b084a78a0dadad73027c2509c060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:17:48 +0000
Subject: [PATCH 02/43] fix: send every fragment of runspace pool requests and
 connect messages

With a small envelope size these messages need several fragments, of which
only the first was sent.
---
 src/pypsrp/powershell.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/pypsrp/powershell.py b/src/pypsrp/powershell.py
index 26babbb..f313418 100644
--- a/src/pypsrp/powershell.py
+++ b/src/pypsrp/powershell.py
@@ -222,8 +222,8 @@ class RunspacePool(object):
         self.ci_table[ci] = response_handler
 
         set_min_runspace = SetMinRunspaces(min_runspaces=min_runspaces, ci=ci)
-        data = self._fragmenter.fragment(set_min_runspace, self.id)[0]
-        self.shell.send("stdin", data)
+        for data in self._fragmenter.fragment(set_min_runspace, self.id):
+            self.shell.send("stdin", data)
 
         while not isinstance(self.ci_table[ci], bool):
             self._receive()
@@ -263,8 +263,8 @@ class RunspacePool(object):
         self.ci_table[ci] = response_handler
 
         set_max_runspace = SetMaxRunspaces(max_runspaces=max_runspaces, ci=ci)
-        data = self._fragmenter.fragment(set_max_runspace, self.id)[0]
-        self.shell.send("stdin", data)
+        for data in self._fragmenter.fragment(set_max_runspace, self.id):
+            self.shell.send("stdin", data)
 
         while not isinstance(self.ci_table[ci], bool):
             self._receive()
@@ -330,8 +330,8 @@ class RunspacePool(object):
         rsp = NAMESPACES["rsp"]
         session_capability = SessionCapability(PROTOCOL_VERSION, PS_VERSION, SERIALIZATION_VERSION)
         connect_runspace = ConnectRunspacePool()
-        data = self._fragmenter.fragment(session_capability, self.id)[0]
-        data += self._fragmenter.fragment(connect_runspace, self.id)[0]
+        data = b"".join(self._fragmenter.fragment(session_capability, self.id))
+        data += b"".join(self._fragmenter.fragment(connect_runspace, self.id))
 
         connect = ET.Element("{%s}Connect" % rsp)
         selectors = SelectorSet()
@@ -399,8 +399,8 @@ class RunspacePool(object):
         self.ci_table[ci] = response_handler
 
         get_runspaces = GetAvailableRunspaces(ci=ci)
-        data = self._fragmenter.fragment(get_runspaces, self.id)[0]
-        self.shell.send("stdin", data)
+        for data in self._fragmenter.fragment(get_runspaces, self.id):
+            self.shell.send("stdin", data)
 
         avail_runspaces = None
         while avail_runspaces is None:
@@ -646,8 +646,8 @@ class RunspacePool(object):
         self.ci_table[ci] = response_handler
 
         reset_state = ResetRunspaceState(ci=ci)
-        data = self._fragmenter.fragment(reset_state, self.id)[0]
-        self.shell.send("stdin", data)
+        for data in self._fragmenter.fragment(reset_state, self.id):
+            self.shell.send("stdin", data)
 
         while not isinstance(self.ci_table[ci], bool):
             self._receive()
-- 
2.43.0


From 321e015738b6d6f7474de3bb8326979be6a4d187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:17:48 +0000
Subject: [PATCH 03/43] fix: answer a server's public key request

The handler returned the exchange_keys method instead of calling it.
---
 src/pypsrp/powershell.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pypsrp/powershell.py b/src/pypsrp/powershell.py
index f313418..f814046 100644
--- a/src/pypsrp/powershell.py
+++ b/src/pypsrp/powershell.py
@@ -755,7 +755,7 @@ class RunspacePool(object):
             # the possible responses and so we will just ignore for now
             MessageType.SESSION_CAPABILITY: self._process_session_capability,
             MessageType.ENCRYPTED_SESSION_KEY: self._process_encrypted_session_key,
-            MessageType.PUBLIC_KEY_REQUEST: lambda m: self.exchange_keys,
+            MessageType.PUBLIC_KEY_REQUEST: lambda m: self.exchange_keys(),
             MessageType.RUNSPACEPOOL_INIT_DATA: self._process_runspacepool_init_data,
             MessageType.RUNSPACE_AVAILABILITY: self._process_runspacepool_availability,
             MessageType.RUNSPACEPOOL_STATE: self._process_runspacepool_state,
-- 
2.43.0


From 7356b4c935e061d83a04f14da4ab66983d97efa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:18:13 +0000
Subject: [PATCH 04/43] fix: keep room for the fragment header after the
 envelope size is raised

The constructor takes the 21 byte header off the payload size, the
renegotiation did not, so full fragments exceeded the payload limit.
---
 src/pypsrp/powershell.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pypsrp/powershell.py b/src/pypsrp/powershell.py
index f814046..a2fc890 100644
--- a/src/pypsrp/powershell.py
+++ b/src/pypsrp/powershell.py
@@ -847,7 +847,7 @@ class RunspacePool(object):
         # default, update the envelope size to 500KiB
         if version_equal_or_newer(msg.protocol_version or "", "2.2") and self.connection.max_envelope_size == 153600:
             self.connection.update_max_payload_size(512000)
-            self._fragmenter.max_size = self.connection.max_payload_size
+            self._fragmenter.max_size = self.connection.max_payload_size - 21  # take away the fragment header size
 
     def _process_runspacepool_init_data(
         self,
-- 
2.43.0


From 93cfb0d063c4d7c4ced0ba2344e91f1a42adc2a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:25:54 +0000
Subject: [PATCH 05/43] fix: keep the pool's runspace limit when availability
 is queried

---
 src/pypsrp/powershell.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/pypsrp/powershell.py b/src/pypsrp/powershell.py
index a2fc890..61a7735 100644
--- a/src/pypsrp/powershell.py
+++ b/src/pypsrp/powershell.py
@@ -391,7 +391,6 @@ class RunspacePool(object):
         """
 
         def response_handler(response):
-            self._max_runspaces = response
             return response
 
         ci = self._ci_counter
-- 
2.43.0


From 62e8bc79366b49ac0f584eb029376a44dcccb520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:27:47 +0000
Subject: [PATCH 06/43] fix: drop the encryption context when the last attempt
 of a request times out

---
 src/pypsrp/wsman.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pypsrp/wsman.py b/src/pypsrp/wsman.py
index 0903ce9..c137830 100644
--- a/src/pypsrp/wsman.py
+++ b/src/pypsrp/wsman.py
@@ -888,12 +888,12 @@ class _TransportHTTP(object):
                 )
             except (requests.ReadTimeout, requests.ConnectTimeout) as e:
                 log.exception("%s during WSMan request - attempt %d", type(e).__name__, attempt)
-                if attempt == retries_on_read_timeout:
-                    raise
 
                 # On a failure the encryption state is invalidated and needs to
                 # be recreated after authentication is done.
                 self.encryption = None
+                if attempt == retries_on_read_timeout:
+                    raise
 
                 attempt += 1
                 time.sleep(self.reconnection_backoff * (2**attempt - 1))
-- 
2.43.0


From 6666423e9c18adfe299402e4d74fd36c1340509d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:48:28 +0000
Subject: [PATCH 07/43] fix: raise the transport error when an XML error body
 is not a SOAP fault

---
 src/pypsrp/wsman.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pypsrp/wsman.py b/src/pypsrp/wsman.py
index c137830..ae1cf29 100644
--- a/src/pypsrp/wsman.py
+++ b/src/pypsrp/wsman.py
@@ -632,6 +632,10 @@ class WSMan(object):
         provider_fault = None
 
         fault = xml.find("s:Body/s:Fault", namespaces=NAMESPACES)
+        if fault is None:
+            # an XML body (e.g. an XHTML error page) that isn't a SOAP fault
+            raise ET.ParseError("The response does not contain a SOAP fault")
+
         if fault is not None:
             code_info = fault.find("s:Code/s:Subcode/s:Value", namespaces=NAMESPACES)
             if code_info is not None:
-- 
2.43.0


From 834a683ae65738746346c5aa49182a4e037805b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:05:24 +0000
Subject: [PATCH 08/43] fix: always end pipeline input with one end-of-input
 message

---
 src/pypsrp/powershell.py | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/src/pypsrp/powershell.py b/src/pypsrp/powershell.py
index 61a7735..440a74c 100644
--- a/src/pypsrp/powershell.py
+++ b/src/pypsrp/powershell.py
@@ -1232,7 +1232,7 @@ class PowerShell(object):
         if len(self.commands) == 0:
             raise InvalidPSRPOperation("Cannot invoke PowerShell without any commands being set")
 
-        no_input = input is None or not input
+        no_input = input is None
         apartment_state = apartment_state or self.runspace_pool.apartment_state
         host_info = HostInfo(host=self.runspace_pool.host)
 
@@ -1263,24 +1263,29 @@ class PowerShell(object):
                 input = input_gen(input)  # type: ignore[arg-type]
 
             log.info("Sending input to remote Pipeline")
-            next_input = next(input)
-            while next_input is not None:
-                if not isinstance(next_input, list):
-                    next_input = [next_input]
-
-                input_msgs: typing.List[ComplexObject] = [PipelineInput(data=d) for d in next_input]
-
-                try:
-                    next_input = next(input)
-                except StopIteration:
+            # None is a valid input object so another value marks the end
+            no_more_input = object()
+            next_input = next(input, no_more_input)
+            while True:
+                input_msgs: typing.List[ComplexObject] = []
+                if next_input is not no_more_input:
+                    if not isinstance(next_input, list):
+                        next_input = [next_input]
+
+                    input_msgs.extend(PipelineInput(data=d) for d in next_input)
+                    next_input = next(input, no_more_input)
+
+                if next_input is no_more_input:
                     input_msgs.append(EndOfPipelineInput())
-                    next_input = None
 
                 fragments = self.runspace_pool._fragmenter.fragment_multiple(input_msgs, self.runspace_pool.id, self.id)
 
                 for fragment in fragments:
                     self.runspace_pool.shell.send("stdin", fragment, command_id=self._command_id)
 
+                if next_input is no_more_input:
+                    break
+
     def end_invoke(self) -> typing.List:
         """
         Wait until the asynchronous command has finished executing and return
-- 
2.43.0


From 48b50f4049d45800cbf402edd9a709ad63bb833f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:10:29 +0000
Subject: [PATCH 09/43] fix: forget a runspace pool request once its negative
 reply arrived

---
 src/pypsrp/powershell.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pypsrp/powershell.py b/src/pypsrp/powershell.py
index 440a74c..a5895ce 100644
--- a/src/pypsrp/powershell.py
+++ b/src/pypsrp/powershell.py
@@ -869,7 +869,8 @@ class RunspacePool(object):
 
         ci = msg.ci
         response = msg.response
-        ci_handler = self.ci_table[ci]
+        # a handler that raises must not leave the answered request behind
+        ci_handler = self.ci_table.pop(ci)
         response = ci_handler(response)
         self.ci_table[ci] = response
         return response
-- 
2.43.0


From 1e831b4cc5ef33e76f6fd0f95d1a89a7aba2d8d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:46:36 +0000
Subject: [PATCH 10/43] fix: keep new connections disabled through a proxy

The adapter only customised its own pool manager. Connections made through
a proxy come from a separate manager created on demand, so a liveness check
could open a new connection to the proxy.
---
 src/pypsrp/_pool_manager.py | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/src/pypsrp/_pool_manager.py b/src/pypsrp/_pool_manager.py
index 81c7516..20c99ef 100644
--- a/src/pypsrp/_pool_manager.py
+++ b/src/pypsrp/_pool_manager.py
@@ -50,7 +50,20 @@ class DisableNewConnectionsContext:
         return None
 
 
-class HTTPSAdapterWithKeyPassword(requests.adapters.HTTPAdapter):
+class HTTPAdapterWithDisabledConnections(requests.adapters.HTTPAdapter):
+
+    def proxy_manager_for(self, proxy, **proxy_kwargs):
+        # The managers used for proxied requests are created on demand and
+        # cached by the adapter, only customize it the first time.
+        is_new = proxy not in self.proxy_manager
+        manager = super().proxy_manager_for(proxy, **proxy_kwargs)
+        if is_new:
+            _wrap_pool_classes(manager)
+
+        return manager
+
+
+class HTTPSAdapterWithKeyPassword(HTTPAdapterWithDisabledConnections):
 
     def __init__(
         self,
@@ -129,17 +142,21 @@ def create_request_adapter(  # type: ignore[no-any-unimported]  # requests does
             _pypsrp_key_password=key_password,
         )
     else:
-        adapter = requests.adapters.HTTPAdapter(max_retries=max_retries)
+        adapter = HTTPAdapterWithDisabledConnections(max_retries=max_retries)
+
+    _wrap_pool_classes(adapter.poolmanager)
 
+    return adapter
+
+
+def _wrap_pool_classes(manager):
     # pool_classes_by_scheme stores the urllib3 pool types used when creating
     # the connection pool for http/https. We wrap the __init__ method so we can
     # inject our custom ConnectionCls that wraps the connect method when
     # created.
     # Copy the dict so we only mutate this adapter's instance, not the
     # module-level dict shared by all urllib3 PoolManager instances.
-    pool_classes = dict(adapter.poolmanager.pool_classes_by_scheme)
+    pool_classes = dict(manager.pool_classes_by_scheme)
     for scheme, pool_cls in list(pool_classes.items()):
         pool_classes[scheme] = _wrap(pool_cls, after=_create_connection_pool)
-    adapter.poolmanager.pool_classes_by_scheme = pool_classes
-
-    return adapter
+    manager.pool_classes_by_scheme = pool_classes
-- 
2.43.0


From 0937a16b65ec2df8675170a098d2a716b84c839b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:47:06 +0000
Subject: [PATCH 11/43] fix: treat a read timeout of the liveness check as a
 closed pool

---
 src/pypsrp/powershell.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/pypsrp/powershell.py b/src/pypsrp/powershell.py
index a5895ce..f3de48e 100644
--- a/src/pypsrp/powershell.py
+++ b/src/pypsrp/powershell.py
@@ -701,7 +701,12 @@ class RunspacePool(object):
             else:
                 raise
 
-        except (_pool_manager.NewConnectionDisabled, TimeoutError, requests.exceptions.ConnectionError):
+        except (
+            _pool_manager.NewConnectionDisabled,
+            TimeoutError,
+            requests.exceptions.ConnectionError,
+            requests.exceptions.Timeout,
+        ):
             # If a timeout or connection error occurs, treat the pool as closed.
             is_closed = True
 
-- 
2.43.0


From 3bf94783e59499f971c2e3c5bc0f29eb74b07eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:59:35 +0000
Subject: [PATCH 12/43] fix: raise AuthenticationError when the server only
 offers an incompatible auth protocol

---
 src/pypsrp/negotiate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pypsrp/negotiate.py b/src/pypsrp/negotiate.py
index 784226a..17fac82 100644
--- a/src/pypsrp/negotiate.py
+++ b/src/pypsrp/negotiate.py
@@ -106,7 +106,7 @@ class HTTPNegotiateAuth(AuthBase):
                 auth_provider = response_auth_header_l
 
             elif response_auth_header_l != "negotiate":
-                raise ValueError(
+                raise AuthenticationError(
                     "Server responded with the auth protocol '%s' which is incompatible with the "
                     "specified auth_provider '%s'" % (response_auth_header, auth_provider)
                 )
-- 
2.43.0


From 58ae7f885aadb1997143615c3aae4336b1997dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:43:11 +0000
Subject: [PATCH 13/43] fix: set the declared ietf_language_tag attribute of
 CultureInfo

---
 src/pypsrp/complex_objects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pypsrp/complex_objects.py b/src/pypsrp/complex_objects.py
index 0390b23..40a9628 100644
--- a/src/pypsrp/complex_objects.py
+++ b/src/pypsrp/complex_objects.py
@@ -1614,7 +1614,7 @@ class CultureInfo(ComplexObject):
         self.lcid = kwargs.get("lcid")
         self.name = kwargs.get("name")
         self.display_name = kwargs.get("display_name")
-        self.ieft_language_tag = kwargs.get("ietf_language_tag")
+        self.ietf_language_tag = kwargs.get("ietf_language_tag")
         self.three_letter_iso_name = kwargs.get("three_letter_iso_name")
         self.three_letter_windows_name = kwargs.get("three_letter_windows_name")
         self.two_letter_iso_language_name = kwargs.get("two_letter_iso_language_name")
-- 
2.43.0


From 9b6b74257fae9a7f99cfc5536533b60e4d77d91d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:43:11 +0000
Subject: [PATCH 14/43] fix: serialise the type names of the command metadata
 objects

---
 src/pypsrp/complex_objects.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pypsrp/complex_objects.py b/src/pypsrp/complex_objects.py
index 40a9628..bc0ec98 100644
--- a/src/pypsrp/complex_objects.py
+++ b/src/pypsrp/complex_objects.py
@@ -1185,7 +1185,7 @@ class CommandMetadataCount(ComplexObject):
             output
         """
         super(CommandMetadataCount, self).__init__()
-        self.types = [
+        self._types = [
             "Selected.Microsoft.PowerShell.Commands.GenericMeasureInfo",
             "System.Management.Automation.PSCustomObject",
             "System.Object",
@@ -1210,7 +1210,7 @@ class CommandMetadata(ComplexObject):
             as Command Parameters
         """
         super(CommandMetadata, self).__init__()
-        self.types = ["System.Management.Automation.PSCustomObject", "System.Object"]
+        self._types = ["System.Management.Automation.PSCustomObject", "System.Object"]
         self._extended_properties = (
             ("name", ObjectMeta("S", name="Name")),
             ("namespace", ObjectMeta("S", name="Namespace")),
@@ -1260,7 +1260,7 @@ class ParameterMetadata(ComplexObject):
             specified in the ArgumentList property
         """
         super(ParameterMetadata, self).__init__()
-        self.types = ["System.Management.Automation.ParameterMetadata", "System.Object"]
+        self._types = ["System.Management.Automation.ParameterMetadata", "System.Object"]
         self._adapted_properties = (
             ("name", ObjectMeta("S", name="Name")),
             ("parameter_type", ObjectMeta("S", name="ParameterType")),
-- 
2.43.0


From f3e007b8455a114239430979dd5133245979952e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:43:34 +0000
Subject: [PATCH 15/43] fix: set every declared property of ErrorRecord and
 send SerializeExtendedInfo once

---
 src/pypsrp/complex_objects.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/pypsrp/complex_objects.py b/src/pypsrp/complex_objects.py
index bc0ec98..516a08d 100644
--- a/src/pypsrp/complex_objects.py
+++ b/src/pypsrp/complex_objects.py
@@ -790,7 +790,7 @@ class ErrorRecord(ComplexObject):
         self._extended_properties = (
             ("exception", ObjectMeta(name="Exception", optional=True)),
             ("target_object", ObjectMeta(name="TargetObject", optional=True)),
-            ("invocation", ObjectMeta("B", name="SerializeExtendedInfo")),
+            ("extended_info_present", ObjectMeta("B", name="SerializeExtendedInfo")),
             (
                 "invocation_info",
                 ObjectMeta("ObjDynamic", name="InvocationInfo", object=GenericComplexObject, optional=True),
@@ -805,7 +805,6 @@ class ErrorRecord(ComplexObject):
             ("details_message", ObjectMeta("S", name="ErrorDetails_Message", optional=True)),
             ("action", ObjectMeta("S", name="ErrorDetails_RecommendedAction", optional=True)),
             ("script_stacktrace", ObjectMeta("S", name="ErrorDetails_ScriptStackTrace", optional=True)),
-            ("extended_info_present", ObjectMeta("B", name="SerializeExtendedInfo")),
             ("invocation_name", ObjectMeta("S", optional=True, name="InvocationInfo_InvocationName")),
             (
                 "invocation_bound_parameters",
@@ -897,8 +896,9 @@ class ErrorRecord(ComplexObject):
             ),
         )
         self.exception = kwargs.get("exception")
-        self.target_info = kwargs.get("target_info")
-        self.invocation = kwargs.get("invocation")
+        self.target_object = kwargs.get("target_object")
+        self.extended_info_present = bool(kwargs.get("invocation"))
+        self.invocation_info = kwargs.get("invocation_info")
         self.fq_error = kwargs.get("fq_error")
         self.category = kwargs.get("category")
         self.activity = kwargs.get("activity")
@@ -908,6 +908,7 @@ class ErrorRecord(ComplexObject):
         self.message = kwargs.get("message")
         self.details_message = kwargs.get("details_message")
         self.action = kwargs.get("action")
+        self.script_stacktrace = kwargs.get("script_stacktrace")
         self.pipeline_iteration_info = kwargs.get("pipeline_iteration_info")
         self.invocation_name = kwargs.get("invocation_name")
         self.invocation_bound_parameters = kwargs.get("invocation_bound_parameters")
@@ -927,7 +928,15 @@ class ErrorRecord(ComplexObject):
         self.command_definition = kwargs.get("command_definition")
         self.command_name = kwargs.get("command_name")
         self.command_visibility = kwargs.get("command_visibility")
-        self.extended_info_present = self.invocation is not None
+
+    @property
+    def invocation(self):
+        # The same flag as extended_info_present, it is only sent once
+        return self.extended_info_present
+
+    @invocation.setter
+    def invocation(self, value):
+        self.extended_info_present = value
 
 
 class InformationalRecord(ComplexObject):
-- 
2.43.0


From 8f1e3e1542c330aec3e65af1f60712980182155f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:44:52 +0000
Subject: [PATCH 16/43] fix: give the error record of RUNSPACEPOOL_STATE its
 wire name

---
 src/pypsrp/messages.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pypsrp/messages.py b/src/pypsrp/messages.py
index 01a1648..f0545f0 100644
--- a/src/pypsrp/messages.py
+++ b/src/pypsrp/messages.py
@@ -441,7 +441,7 @@ class RunspacePoolStateMessage(ComplexObject):
         super(RunspacePoolStateMessage, self).__init__()
         self._extended_properties = (
             ("state", ObjectMeta("I32", name="RunspaceState")),
-            ("error_record", ObjectMeta("Obj", optional=True, object=ErrorRecord)),
+            ("error_record", ObjectMeta("Obj", name="ExceptionAsErrorRecord", optional=True, object=ErrorRecord)),
         )
         self.state = state
         self.error_record = error_record
-- 
2.43.0


From 50bec962e5ac51ee3700d824664fe641e8458a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:44:52 +0000
Subject: [PATCH 17/43] fix: serialise date time values instead of failing

---
 src/pypsrp/serializer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pypsrp/serializer.py b/src/pypsrp/serializer.py
index 4a6fce7..db6e6a0 100644
--- a/src/pypsrp/serializer.py
+++ b/src/pypsrp/serializer.py
@@ -114,7 +114,7 @@ class Serializer(object):
             "ToString": lambda d: self._serialize_string(d),
             "C": lambda m, d: str(ord(d)),
             "B": lambda m, d: str(d).lower(),
-            "DT": lambda m, d: None,
+            "DT": lambda m, d: str(d),
             "TS": lambda m, d: str(d),
             "By": lambda m, d: str(d),
             "SB": lambda m, d: str(d),
-- 
2.43.0


From 8134a5cbb50c46a129a5465602ac0af5b5d533c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:46:06 +0000
Subject: [PATCH 18/43] fix: keep the property name on a reference to an object
 already serialised

---
 src/pypsrp/serializer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pypsrp/serializer.py b/src/pypsrp/serializer.py
index db6e6a0..48eefa8 100644
--- a/src/pypsrp/serializer.py
+++ b/src/pypsrp/serializer.py
@@ -855,6 +855,9 @@ class Serializer(object):
         key: typing.Optional[str] = None,
         meta: typing.Optional[ObjectMeta] = None,
     ) -> None:
+        if key is None and meta is not None:
+            key = meta.name
+
         if isinstance(obj, ComplexObject):
             for ref, value in self.obj.items():
                 if value == obj:
-- 
2.43.0


From 9ad6c91f5f689727606658324d32aa2e9f6205ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:52:52 +0000
Subject: [PATCH 19/43] fix: reference recorded type names only for the same
 list of names

---
 src/pypsrp/serializer.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/pypsrp/serializer.py b/src/pypsrp/serializer.py
index 48eefa8..655b9bd 100644
--- a/src/pypsrp/serializer.py
+++ b/src/pypsrp/serializer.py
@@ -835,12 +835,13 @@ class Serializer(object):
         parent: ET.Element,
         types: typing.List[str],
     ) -> None:
-        main_type = types[0]
-        ref_id = self.tn.get(main_type, None)
+        # objects may share their first type but not the ones it derives from
+        type_names = tuple(types)
+        ref_id = self.tn.get(type_names, None)
         if ref_id is None:
             ref_id = self.tn_id
             self.tn_id += 1
-            self.tn[main_type] = ref_id
+            self.tn[type_names] = ref_id
 
             tn = ET.SubElement(parent, "TN", RefId=str(ref_id))
             for type_name in types:
-- 
2.43.0


From 0a37987015a6af9d73587bb712fb2a89eac7fb4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:24:10 +0000
Subject: [PATCH 20/43] fix: serialise values tagged ToString instead of
 failing

---
 src/pypsrp/serializer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pypsrp/serializer.py b/src/pypsrp/serializer.py
index 655b9bd..bcf9dc3 100644
--- a/src/pypsrp/serializer.py
+++ b/src/pypsrp/serializer.py
@@ -111,7 +111,7 @@ class Serializer(object):
         pack_function: typing.Callable[[ObjectMeta, typing.Any], ET.Element] = {  # type: ignore[assignment] # Not sure why
             # primitive types
             "S": lambda m, d: self._serialize_string(d),
-            "ToString": lambda d: self._serialize_string(d),
+            "ToString": lambda m, d: self._serialize_string(d),
             "C": lambda m, d: str(ord(d)),
             "B": lambda m, d: str(d).lower(),
             "DT": lambda m, d: str(d),
-- 
2.43.0


From c81527f3e1d5dbef28dbd11977e15e108f75656a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:24:22 +0000
Subject: [PATCH 21/43] fix: write infinity and not a number in the protocol's
 notation

---
 src/pypsrp/serializer.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/pypsrp/serializer.py b/src/pypsrp/serializer.py
index bcf9dc3..a74248b 100644
--- a/src/pypsrp/serializer.py
+++ b/src/pypsrp/serializer.py
@@ -124,8 +124,8 @@ class Serializer(object):
             "I32": lambda m, d: str(d),
             "U64": lambda m, d: str(d),
             "I64": lambda m, d: str(d),
-            "Sg": lambda m, d: str(d),
-            "Db": lambda m, d: str(d),
+            "Sg": lambda m, d: self._serialize_float(d),
+            "Db": lambda m, d: self._serialize_float(d),
             "D": lambda m, d: str(d),
             "BA": lambda m, d: to_string(base64.b64encode(d)),
             "G": lambda m, d: str(d),
@@ -587,6 +587,15 @@ class Serializer(object):
 
         return string_value
 
+    def _serialize_float(
+        self,
+        value: typing.Any,
+    ) -> str:
+        string_value = str(value)
+
+        # XML Schema, which PSRP refers to, has its own names for the values that are not numbers
+        return {"inf": "INF", "-inf": "-INF", "nan": "NaN"}.get(string_value, string_value)
+
     def _serialize_secure_string(
         self,
         value: str,
-- 
2.43.0


From 8d45803709d19be734778af9860e230071630b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:24:30 +0000
Subject: [PATCH 22/43] fix: read back the elements of an IE container

---
 src/pypsrp/serializer.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pypsrp/serializer.py b/src/pypsrp/serializer.py
index a74248b..2be3a34 100644
--- a/src/pypsrp/serializer.py
+++ b/src/pypsrp/serializer.py
@@ -348,7 +348,7 @@ class Serializer(object):
             obj = self._deserialize_obj(element, metadata)
         elif metadata.tag == "ObjDynamic":
             obj = self._deserialize_dynamic_obj(element, metadata)
-        elif metadata.tag == "LST":
+        elif metadata.tag in ["LST", "IE"]:
             obj = self._deserialize_lst(element, metadata)
         elif metadata.tag == "QUE":
             obj = self._deserialize_que(element)
@@ -713,8 +713,9 @@ class Serializer(object):
         metadata: typing.Optional[ObjectMeta] = None,
     ) -> typing.List:
         value_meta = getattr(metadata, "list_value_meta", None)
+        list_type = "LST" if element.find("IE") is None else "IE"
 
-        list_value = list(self._deserialize_list_values(element, "LST", value_meta=value_meta))
+        list_value = list(self._deserialize_list_values(element, list_type, value_meta=value_meta))
 
         return list_value
 
-- 
2.43.0


From 1022c63d180a0873743090efb0dde3eefd574067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:24:41 +0000
Subject: [PATCH 23/43] fix: read an empty byte array instead of failing

---
 src/pypsrp/serializer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pypsrp/serializer.py b/src/pypsrp/serializer.py
index 2be3a34..e40853c 100644
--- a/src/pypsrp/serializer.py
+++ b/src/pypsrp/serializer.py
@@ -212,7 +212,7 @@ class Serializer(object):
             "Sg": lambda d: float(d.text),
             "Db": lambda d: float(d.text),
             "D": lambda d: d.text,  # TODO: deserialize this
-            "BA": lambda d: base64.b64decode(d.text),
+            "BA": lambda d: base64.b64decode(d.text or ""),
             "G": lambda d: uuid.UUID(d.text),
             "URI": lambda d: self._deserialize_string(d.text),
             "Nil": lambda d: None,
-- 
2.43.0


From 95e2b1f16ed3c7454512eda48dc9b4952f6583f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:24:54 +0000
Subject: [PATCH 24/43] fix: escape the code points XML cannot carry in
 serialised text

---
 src/pypsrp/serializer.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/pypsrp/serializer.py b/src/pypsrp/serializer.py
index e40853c..27071fb 100644
--- a/src/pypsrp/serializer.py
+++ b/src/pypsrp/serializer.py
@@ -60,9 +60,12 @@ class Serializer(object):
         self.tn: typing.Dict = {}
 
         self.cipher: typing.Any = None
-        # Finds C0, C1 and surrogate pairs in a unicode string for us to
-        # encode according to the PSRP rules
-        self._serial_str = re.compile("[\u0000-\u001f\u007f-\u009f\U00010000-\U0010ffff]")
+        # Finds C0, C1, surrogates, the non characters XML does not allow and
+        # surrogate pairs in a unicode string for us to encode according to the
+        # PSRP rules
+        self._serial_str = re.compile(
+            "[\u0000-\u001f\u007f-\u009f\ud800-\udfff\ufffe\uffff\U00010000-\U0010ffff]"
+        )
 
         # to support surrogate UTF-16 pairs we need to use a UTF-16 regex
         # so we can replace the UTF-16 string representation with the actual
@@ -570,7 +573,7 @@ class Serializer(object):
 
         def rplcr(matchobj):
             surrogate_char = matchobj.group(0)
-            byte_char = to_bytes(surrogate_char, encoding="utf-16-be")
+            byte_char = surrogate_char.encode("utf-16-be", "surrogatepass")
             hex_char = to_unicode(binascii.hexlify(byte_char)).upper()
             hex_split = [hex_char[i : i + 4] for i in range(0, len(hex_char), 4)]
 
-- 
2.43.0


From ab5ac0dd792cb4cb7ffc6ba5af520480d7c91254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:25:05 +0000
Subject: [PATCH 25/43] fix: read escapes only where the text has them and keep
 lone surrogates

---
 src/pypsrp/serializer.py | 33 +++++++++++----------------------
 1 file changed, 11 insertions(+), 22 deletions(-)

diff --git a/src/pypsrp/serializer.py b/src/pypsrp/serializer.py
index 27071fb..b4e7a0d 100644
--- a/src/pypsrp/serializer.py
+++ b/src/pypsrp/serializer.py
@@ -67,10 +67,8 @@ class Serializer(object):
             "[\u0000-\u001f\u007f-\u009f\ud800-\udfff\ufffe\uffff\U00010000-\U0010ffff]"
         )
 
-        # to support surrogate UTF-16 pairs we need to use a UTF-16 regex
-        # so we can replace the UTF-16 string representation with the actual
-        # UTF-16 byte value and then decode that
-        self._deserial_str = re.compile(b"\\x00_\\x00x([\\0\\w]{8})\\x00_")
+        # Finds the escaped UTF-16 code units
+        self._deserial_str = re.compile("_x([0-9a-fA-F]{4})_")
 
     def serialize(
         self,
@@ -780,24 +778,15 @@ class Serializer(object):
             return ""
 
         def rplcr(matchobj):
-            # The matched object is the UTF-16 byte representation of the UTF-8
-            # hex string value. We need to decode the byte str to unicode and
-            # then unhexlify that hex string to get the actual bytes of the
-            # _x****_ value, e.g.
-            # group(0) == b"\x00_\x00x\x000\x000\x000\x00A\x00_"
-            # group(1) == b"\x000\x000\x000\x00A"
-            # unicode (from utf-16-be) == u"000A"
-            # returns b"\x00\x0A"
-            match_hex = matchobj.group(1)
-            hex_string = to_unicode(match_hex, encoding="utf-16-be")
-            return binascii.unhexlify(hex_string)
-
-        # need to ensure we start with a unicode representation of the string
-        # so that we can get the actual UTF-16 bytes value from that string
-        unicode_value = to_unicode(value)
-        unicode_bytes = to_bytes(unicode_value, encoding="utf-16-be")
-        bytes_value = re.sub(self._deserial_str, rplcr, unicode_bytes)
-        return to_unicode(bytes_value, encoding="utf-16-be")
+            # the value is the hex of a UTF-16 code unit, which may be one half
+            # of a surrogate pair
+            return chr(int(matchobj.group(1), 16))
+
+        unicode_value = re.sub(self._deserial_str, rplcr, to_unicode(value))
+
+        # join the surrogate pairs by going through the UTF-16 bytes
+        utf16_value = unicode_value.encode("utf-16-be", "surrogatepass")
+        return utf16_value.decode("utf-16-be", "surrogatepass")
 
     def _deserialize_secure_string(self, value: ET.Element) -> typing.Union[ET.Element, str]:
         if self.cipher is None:
-- 
2.43.0


From 9557f6df2e43f47eac5d027fff57d84452ee09ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:25:54 +0000
Subject: [PATCH 26/43] fix: escape the names of properties like other text

---
 src/pypsrp/serializer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pypsrp/serializer.py b/src/pypsrp/serializer.py
index b4e7a0d..5381f77 100644
--- a/src/pypsrp/serializer.py
+++ b/src/pypsrp/serializer.py
@@ -464,7 +464,7 @@ class Serializer(object):
             prop_keys.sort()
             for key in prop_keys:
                 prop = getattr(value, prop_name)[key]
-                self._create_obj(parent, prop, key=key)
+                self._create_obj(parent, prop, key=self._serialize_string(key))
 
         set_properties("MS", "extended_properties")
         set_properties("Props", "adapted_properties")
@@ -691,12 +691,12 @@ class Serializer(object):
                 obj.types = self.tn[obj_property.attrib["RefId"]]
             elif obj_property.tag == "Props":
                 for adapted_property in obj_property:
-                    key = adapted_property.attrib["N"]
+                    key = self._deserialize_string(adapted_property.attrib["N"])
                     value = self.deserialize(adapted_property, clear=False)
                     obj.adapted_properties[key] = value
             elif obj_property.tag == "MS":
                 for extended_property in obj_property:
-                    key = extended_property.attrib["N"]
+                    key = self._deserialize_string(extended_property.attrib["N"])
                     value = self.deserialize(extended_property, clear=False)
                     obj.extended_properties[key] = value
             elif obj_property.tag == "ToString":
-- 
2.43.0


From ff150f7317a06f088d14055d7957fe386b498880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:26:06 +0000
Subject: [PATCH 27/43] fix: serialise values of derived types like their base
 type

---
 src/pypsrp/serializer.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/pypsrp/serializer.py b/src/pypsrp/serializer.py
index 5381f77..80e1c65 100644
--- a/src/pypsrp/serializer.py
+++ b/src/pypsrp/serializer.py
@@ -376,25 +376,25 @@ class Serializer(object):
         # Get's the XML tag based on the value type, this is a simple list
         # and explicit tagging is recommended.
 
-        value_type = type(value)
-        if value_type == int:
-            return "I32"
-        elif value_type == bool:
+        # bool derives from int and has to come first
+        if isinstance(value, bool):
             return "B"
-        elif value_type == float:
+        elif isinstance(value, int):
+            return "I32"
+        elif isinstance(value, float):
             return "Sg"
-        elif value_type == str:
+        elif isinstance(value, str):
             return "S"
-        elif value_type == bytes:
+        elif isinstance(value, bytes):
             # This will only occur in Python 3 as a byte string in Python 2 is
             # a str. If users on that platform want a BA then they need to
             # explicitly set the metadata themselves
             return "BA"
-        elif value_type == uuid.UUID:
+        elif isinstance(value, uuid.UUID):
             return "G"
-        elif value_type == list:
+        elif isinstance(value, list):
             return "LST"
-        elif value_type == dict:
+        elif isinstance(value, dict):
             return "DCT"
         elif isinstance(value, Queue):
             return "QUE"
-- 
2.43.0


From b07ac617ca24ba355b5d7f3fd84836309de6b517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:26:18 +0000
Subject: [PATCH 28/43] fix: serialise informational records under their own
 type name

---
 src/pypsrp/complex_objects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pypsrp/complex_objects.py b/src/pypsrp/complex_objects.py
index 516a08d..5b2c87e 100644
--- a/src/pypsrp/complex_objects.py
+++ b/src/pypsrp/complex_objects.py
@@ -946,7 +946,7 @@ class InformationalRecord(ComplexObject):
         https://msdn.microsoft.com/en-us/library/dd305072.aspx
         """
         super(InformationalRecord, self).__init__()
-        self._types = ["System.Management.Automation.InformationRecord", "System.Object"]
+        self._types = ["System.Management.Automation.InformationalRecord", "System.Object"]
         self._extended_properties = (
             ("message", ObjectMeta("S", name="InformationalRecord_Message")),
             ("invocation", ObjectMeta("B", name="InformationalRecord_SerializeInvocationInfo")),
-- 
2.43.0


From 3b63bf4f63c0668fd262b9f015e9b880b3501907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:28:15 +0000
Subject: [PATCH 29/43] fix: do not record the tag of one value in a type
 description that is used again

---
 src/pypsrp/serializer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pypsrp/serializer.py b/src/pypsrp/serializer.py
index 80e1c65..3444c42 100644
--- a/src/pypsrp/serializer.py
+++ b/src/pypsrp/serializer.py
@@ -103,6 +103,8 @@ class Serializer(object):
 
         metadata = metadata or ObjectMeta()
         if metadata.tag == "*":
+            # the description may be shared with other values
+            metadata = copy(metadata)
             if isinstance(value, TaggedValue):
                 metadata.tag = value.tag
                 value = value.value
-- 
2.43.0


From 54fd004f2d003a94f044afd69865bc88cbcf25a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:28:26 +0000
Subject: [PATCH 30/43] fix: do not record the tag of an element read in a type
 description that is used again

---
 src/pypsrp/serializer.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/pypsrp/serializer.py b/src/pypsrp/serializer.py
index 3444c42..6867124 100644
--- a/src/pypsrp/serializer.py
+++ b/src/pypsrp/serializer.py
@@ -188,7 +188,8 @@ class Serializer(object):
             xml_string = ET.tostring(element, encoding="utf-8", method="xml")
             element_string = to_string(xml_string)
 
-        metadata = metadata or ObjectMeta()
+        # the description belongs to the caller
+        metadata = (copy(metadata) if clear else metadata) or ObjectMeta()
         if metadata.tag == "*":
             metadata.tag = element.tag
 
@@ -666,7 +667,7 @@ class Serializer(object):
                         raise SerializationError(err_msg)
                     val = None
                 elif val is not None:
-                    val = self.deserialize(val, property_meta, clear=False)
+                    val = self.deserialize(val, copy(property_meta), clear=False)
 
                 setattr(obj, attr, val)
 
@@ -715,7 +716,7 @@ class Serializer(object):
         element: ET.Element,
         metadata: typing.Optional[ObjectMeta] = None,
     ) -> typing.List:
-        value_meta = getattr(metadata, "list_value_meta", None)
+        value_meta = copy(getattr(metadata, "list_value_meta", None))
         list_type = "LST" if element.find("IE") is None else "IE"
 
         list_value = list(self._deserialize_list_values(element, list_type, value_meta=value_meta))
-- 
2.43.0


From 37f057073a1446779afd3850788a0a3871a99923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:28:37 +0000
Subject: [PATCH 31/43] fix: serialise a stack without emptying it

---
 src/pypsrp/serializer.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/pypsrp/serializer.py b/src/pypsrp/serializer.py
index 6867124..89ed5d6 100644
--- a/src/pypsrp/serializer.py
+++ b/src/pypsrp/serializer.py
@@ -500,15 +500,13 @@ class Serializer(object):
         values: typing.List,
     ) -> ET.Element:
         obj = ET.Element("Obj", RefId=self._get_obj_id())
+        if not isinstance(metadata, StackMeta):
+            metadata = StackMeta(name=metadata.name, optional=metadata.optional)
         self._create_tn(obj, metadata.list_types)
 
         stk = ET.SubElement(obj, "STK")
-        while True:
-            try:
-                value = values.pop()
-                self.serialize(value, metadata.list_value_meta, parent=stk, clear=False)
-            except IndexError:
-                break
+        for value in reversed(values):
+            self.serialize(value, metadata.list_value_meta, parent=stk, clear=False)
 
         return obj
 
-- 
2.43.0


From ec03fc842d0059874dcd34008c8b97862ea02305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:28:48 +0000
Subject: [PATCH 32/43] fix: give each object read its own list of type names

---
 src/pypsrp/serializer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pypsrp/serializer.py b/src/pypsrp/serializer.py
index 89ed5d6..4e2cbfd 100644
--- a/src/pypsrp/serializer.py
+++ b/src/pypsrp/serializer.py
@@ -689,7 +689,7 @@ class Serializer(object):
                     obj.types.append(obj_type.text)
                 self.tn[obj_property.attrib["RefId"]] = obj.types
             elif obj_property.tag == "TNRef":
-                obj.types = self.tn[obj_property.attrib["RefId"]]
+                obj.types = list(self.tn[obj_property.attrib["RefId"]])
             elif obj_property.tag == "Props":
                 for adapted_property in obj_property:
                     key = self._deserialize_string(adapted_property.attrib["N"])
-- 
2.43.0


From e22de3cfc033140b83a7f27b34ffd634fd0187a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:48:23 +0000
Subject: [PATCH 33/43] fix: name the keys and values of dictionaries with
 declared types

---
 src/pypsrp/serializer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pypsrp/serializer.py b/src/pypsrp/serializer.py
index 4e2cbfd..300a9f6 100644
--- a/src/pypsrp/serializer.py
+++ b/src/pypsrp/serializer.py
@@ -557,7 +557,9 @@ class Serializer(object):
         for key, value in iterator:
             en = ET.SubElement(dct, "En")
             key_meta = copy(metadata.dict_key_meta)
+            key_meta.name = "Key"
             value_meta = copy(metadata.dict_value_meta)
+            value_meta.name = "Value"
             self.serialize(key, key_meta, parent=en, clear=False)
             self.serialize(value, value_meta, parent=en, clear=False)
 
-- 
2.43.0


From 3f1a82ab90a17d703747ee4740628d730e3ea44b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:55:08 +0000
Subject: [PATCH 34/43] fix: read the elements of an object array by their own
 types

---
 src/pypsrp/serializer.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pypsrp/serializer.py b/src/pypsrp/serializer.py
index 300a9f6..50d0119 100644
--- a/src/pypsrp/serializer.py
+++ b/src/pypsrp/serializer.py
@@ -339,7 +339,10 @@ class Serializer(object):
                 obj_meta = structures.get(obj_type)
                 if obj_meta is not None:
                     metadata = obj_meta
-                    if is_list:
+                    if is_list and obj_type == "System.Object":
+                        # the elements can be anything, each has its own type names
+                        metadata = ListMeta(list_value_meta=ObjectMeta("Obj"))
+                    elif is_list:
                         metadata = ListMeta(list_value_meta=metadata)
                     break
 
-- 
2.43.0


From a774f6926923e756b5b789a2c455f55bd6ac0d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:02:10 +0000
Subject: [PATCH 35/43] fix: name a copy of an XML element that is the value of
 a property

---
 src/pypsrp/serializer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pypsrp/serializer.py b/src/pypsrp/serializer.py
index 50d0119..a84842f 100644
--- a/src/pypsrp/serializer.py
+++ b/src/pypsrp/serializer.py
@@ -8,7 +8,7 @@ import re
 import typing
 import uuid
 import xml.etree.ElementTree as ET
-from copy import copy
+from copy import copy, deepcopy
 from queue import Empty, Queue
 
 from cryptography.hazmat.primitives.padding import PKCS7
@@ -94,6 +94,8 @@ class Serializer(object):
 
         if isinstance(value, ET.Element):
             if metadata is not None and metadata.name is not None:
+                # the element may be used under another name as well
+                value = deepcopy(value)
                 value.attrib["N"] = metadata.name
 
             if parent is not None:
-- 
2.43.0


From 67eff6876008a054bb246199912b60f93f7eb00a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:44:49 +0000
Subject: [PATCH 36/43] fix: write everything fetched to the temporary file

---
 src/pypsrp/client.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pypsrp/client.py b/src/pypsrp/client.py
index 273c56e..4ef764c 100644
--- a/src/pypsrp/client.py
+++ b/src/pypsrp/client.py
@@ -273,7 +273,9 @@ class Client(object):
             temp_file, path = tempfile.mkstemp()
             try:
                 file_bytes = base64.b64decode(powershell.output[0])
-                os.write(temp_file, file_bytes)
+                # os.write may write only a part of the data
+                with os.fdopen(temp_file, "wb", closefd=False) as temp_fd:
+                    temp_fd.write(file_bytes)
 
                 sha1 = hashlib.sha1()
                 sha1.update(file_bytes)
-- 
2.43.0


From c4a76c90ed03b62c522d6a7f58c37d099ba410ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:09:17 +0000
Subject: [PATCH 37/43] fix: report the second run of a process, not the first

---
 src/pypsrp/shell.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pypsrp/shell.py b/src/pypsrp/shell.py
index a8f446e..c5e9e15 100644
--- a/src/pypsrp/shell.py
+++ b/src/pypsrp/shell.py
@@ -419,6 +419,12 @@ class Process(object):
         poll_invoke to get the latest output/status of the command and
         end_invoke to wait until the process is complete.
         """
+        # the process may have been run before
+        self.state = CommandState.PENDING
+        self.rc = None
+        self.stdout = b""
+        self.stderr = b""
+
         response = self.shell.command(self.executable, self.arguments, no_shell=self.no_shell)
         command_id = response.find("rsp:CommandResponse/rsp:CommandId", namespaces=NAMESPACES)
         self.id = command_id.text if command_id is not None else None
-- 
2.43.0


From 1f0d56bf76f870e9061d3e535ceb71d3dbf4e602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:09:27 +0000
Subject: [PATCH 38/43] fix: open a WinRS shell again with a valid idle timeout

---
 src/pypsrp/shell.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pypsrp/shell.py b/src/pypsrp/shell.py
index c5e9e15..180f958 100644
--- a/src/pypsrp/shell.py
+++ b/src/pypsrp/shell.py
@@ -182,7 +182,11 @@ class WinRS(object):
                 ET.SubElement(env, "{%s}Variable" % rsp, Name=str(key)).text = str(value)
 
         if self.idle_time_out is not None:
-            ET.SubElement(shell, "{%s}IdleTimeOut" % rsp).text = "PT%sS" % str(self.idle_time_out)
+            idle_time_out = str(self.idle_time_out)
+            # the reply of an earlier open has set this to a duration already
+            if not idle_time_out.startswith("P"):
+                idle_time_out = "PT%sS" % idle_time_out
+            ET.SubElement(shell, "{%s}IdleTimeOut" % rsp).text = idle_time_out
 
         if self.lifetime is not None:
             ET.SubElement(shell, "{%s}Lifetime" % rsp).text = "PT%sS" % self.lifetime
-- 
2.43.0


From 50ea3516e9b048e0ae238804c079e95b835376ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:46:21 +0000
Subject: [PATCH 39/43] fix: do not log the arguments of a host call that
 cannot be run, they may hold decrypted secure strings

---
 src/pypsrp/powershell.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pypsrp/powershell.py b/src/pypsrp/powershell.py
index f3de48e..2d37004 100644
--- a/src/pypsrp/powershell.py
+++ b/src/pypsrp/powershell.py
@@ -813,7 +813,7 @@ class RunspacePool(object):
         if self.host is None:
             log.warning(
                 "Cannot run host call as no host was defined for the "
-                "runspace, method: %s, args: %s" % (str(host_call.mi), str(host_call.mp))
+                "runspace, method: %s, number of args: %d" % (str(host_call.mi), len(host_call.mp or []))
             )
             return host_call
 
-- 
2.43.0


From 7e188cef170bbf4c4b5f1c9e95519cfe20e10592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:18:58 +0000
Subject: [PATCH 40/43] fix: stop a pipeline by the command id the server gave
 it, as close, send and receive do

---
 src/pypsrp/powershell.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pypsrp/powershell.py b/src/pypsrp/powershell.py
index 2d37004..5b4043d 100644
--- a/src/pypsrp/powershell.py
+++ b/src/pypsrp/powershell.py
@@ -1525,7 +1525,7 @@ class PowerShell(object):
             raise InvalidPipelineStateError(self.state, PSInvocationState.RUNNING, "stop a running pipeline")
 
         self.state = PSInvocationState.STOPPING
-        self.runspace_pool.shell.signal(SignalCode.PS_CTRL_C, str(self.id).upper())
+        self.runspace_pool.shell.signal(SignalCode.PS_CTRL_C, command_id=self._command_id or self.id)
         self.state = PSInvocationState.STOPPED
         self.runspace_pool.pipelines.pop(self.id, None)
 
-- 
2.43.0


From 2b439fc9ec2afe22ac22532143abd2389af4c4e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:26 +0000
Subject: [PATCH 41/43] fix: find the closing boundary of an encrypted message
 whatever characters it has

---
 src/pypsrp/encryption.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pypsrp/encryption.py b/src/pypsrp/encryption.py
index 1442a0a..52fc3ce 100644
--- a/src/pypsrp/encryption.py
+++ b/src/pypsrp/encryption.py
@@ -55,7 +55,7 @@ class WinRMEncryption(object):
             expected_length = int(header.split(b"Length=")[1])
 
             # remove the end MIME block if it exists
-            payload = re.sub(to_bytes(r"--\s*%s--\r\n$") % to_bytes(boundary), b"", payload)
+            payload = re.sub(to_bytes(r"--\s*%s--\r\n$" % re.escape(boundary)), b"", payload)
 
             wrapped_data = payload.replace(b"\tContent-Type: application/octet-stream\r\n", b"")
             header_length = struct.unpack("<i", wrapped_data[:4])[0]
-- 
2.43.0


From 7a779d128603bf53ac2a4cdb61df522e315b2b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:52 +0000
Subject: [PATCH 42/43] fix: an apartment state of STA given to an invocation
 is not ignored

---
 src/pypsrp/powershell.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pypsrp/powershell.py b/src/pypsrp/powershell.py
index 5b4043d..3b133b2 100644
--- a/src/pypsrp/powershell.py
+++ b/src/pypsrp/powershell.py
@@ -1239,7 +1239,9 @@ class PowerShell(object):
             raise InvalidPSRPOperation("Cannot invoke PowerShell without any commands being set")
 
         no_input = input is None
-        apartment_state = apartment_state or self.runspace_pool.apartment_state
+        # STA is 0
+        if apartment_state is None:
+            apartment_state = self.runspace_pool.apartment_state
         host_info = HostInfo(host=self.runspace_pool.host)
 
         pipeline = Pipeline(
-- 
2.43.0


From f1b11a41e0d4f7be66ea85b284a7456c601bf3bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:03 +0000
Subject: [PATCH 43/43] fix: invoking a pipeline no longer ends the statement
 of its last command

---
 src/pypsrp/complex_objects.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/pypsrp/complex_objects.py b/src/pypsrp/complex_objects.py
index 5b2c87e..cc3a40c 100644
--- a/src/pypsrp/complex_objects.py
+++ b/src/pypsrp/complex_objects.py
@@ -509,14 +509,13 @@ class Pipeline(ComplexObject):
         statements = []
         current_statement = []
 
-        # set the last command to be the end of the statement
-        self.commands[-1].end_of_statement = True
-        for command in self.commands:
+        last = len(self.commands) - 1
+        for i, command in enumerate(self.commands):
             # need to use deepcopy as the values can be appended to multiple
             # parents and in lxml that removes it from the original parent,
             # whereas this will create a copy of the statement for each parent
             current_statement.append(deepcopy(command))
-            if command.end_of_statement:
+            if command.end_of_statement or i == last:
                 statements.append(current_statement)
                 current_statement = []
 
-- 
2.43.0

