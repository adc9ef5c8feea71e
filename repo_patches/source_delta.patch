From bc2e40b0c53c91aa5aaa3aea0f284778ee36f7b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:52 +0000
Subject: [PATCH 01/54] fix: write the UUID attribute of every identifiable
 element

Only packages and some elements wrote it, so it was lost for all others
although the reader reads it for each of them.
---
 src/autosar/xml/writer.py | 110 +++++++++++++++++++-------------------
 1 file changed, 55 insertions(+), 55 deletions(-)

diff --git a/src/autosar/xml/writer.py b/src/autosar/xml/writer.py
index 892c42b..bb7ee88 100644
--- a/src/autosar/xml/writer.py
+++ b/src/autosar/xml/writer.py
@@ -1588,7 +1588,7 @@ class Writer(_XMLWriter):
         Tag variants: 'IMPLEMENTATION-DATA-TYPE-ELEMENT'
         """
         assert isinstance(elem, ar_element.ImplementationDataTypeElement)
-        self._add_child("IMPLEMENTATION-DATA-TYPE-ELEMENT")
+        self._add_child("IMPLEMENTATION-DATA-TYPE-ELEMENT", self._collect_identifiable_attributes(elem, []))
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -1625,7 +1625,7 @@ class Writer(_XMLWriter):
         Tag variants: 'IMPLEMENTATION-DATA-TYPE'
         """
         assert isinstance(elem, ar_element.ImplementationDataType)
-        self._add_child("IMPLEMENTATION-DATA-TYPE")
+        self._add_child("IMPLEMENTATION-DATA-TYPE", self._collect_identifiable_attributes(elem, []))
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -1676,7 +1676,7 @@ class Writer(_XMLWriter):
         Tag variants: 'APPLICATION-PRIMITIVE-DATA-TYPE'
         """
         assert isinstance(elem, ar_element.ApplicationPrimitiveDataType)
-        self._add_child("APPLICATION-PRIMITIVE-DATA-TYPE")
+        self._add_child("APPLICATION-PRIMITIVE-DATA-TYPE", self._collect_identifiable_attributes(elem, []))
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -1701,7 +1701,7 @@ class Writer(_XMLWriter):
         Tag variants: 'ELEMENT'
         """
         assert isinstance(elem, ar_element.ApplicationArrayElement)
-        self._add_child("ELEMENT")
+        self._add_child("ELEMENT", self._collect_identifiable_attributes(elem, []))
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -1731,7 +1731,7 @@ class Writer(_XMLWriter):
         Tag variants: 'APPLICATION-RECORD-ELEMENT'
         """
         assert isinstance(elem, ar_element.ApplicationRecordElement)
-        self._add_child("APPLICATION-RECORD-ELEMENT")
+        self._add_child("APPLICATION-RECORD-ELEMENT", self._collect_identifiable_attributes(elem, []))
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -1755,7 +1755,7 @@ class Writer(_XMLWriter):
         Tag variants: 'APPLICATION-ARRAY-DATA-TYPE'
         """
         assert isinstance(elem, ar_element.ApplicationArrayDataType)
-        self._add_child("APPLICATION-ARRAY-DATA-TYPE")
+        self._add_child("APPLICATION-ARRAY-DATA-TYPE", self._collect_identifiable_attributes(elem, []))
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -1780,7 +1780,7 @@ class Writer(_XMLWriter):
         Tag variants: 'APPLICATION-RECORD-DATA-TYPE'
         """
         assert isinstance(elem, ar_element.ApplicationRecordDataType)
-        self._add_child("APPLICATION-RECORD-DATA-TYPE")
+        self._add_child("APPLICATION-RECORD-DATA-TYPE", self._collect_identifiable_attributes(elem, []))
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -2784,7 +2784,7 @@ class Writer(_XMLWriter):
         Tag variants: 'MODE-DECLARATION'
         """
         assert isinstance(elem, ar_element.ModeDeclaration)
-        self._add_child("MODE-DECLARATION")
+        self._add_child("MODE-DECLARATION", self._collect_identifiable_attributes(elem, []))
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -2814,7 +2814,7 @@ class Writer(_XMLWriter):
         tag variants: 'MODE-TRANSITION'
         """
         assert isinstance(elem, ar_element.ModeTransition)
-        self._add_child("MODE-TRANSITION")
+        self._add_child("MODE-TRANSITION", self._collect_identifiable_attributes(elem, []))
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -2912,7 +2912,7 @@ class Writer(_XMLWriter):
         Type: Concrete
         """
         assert isinstance(elem, ar_element.NvDataInterface)
-        self._add_child("NV-DATA-INTERFACE")
+        self._add_child("NV-DATA-INTERFACE", self._collect_identifiable_attributes(elem, []))
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -2937,7 +2937,7 @@ class Writer(_XMLWriter):
         Type: Concrete
         """
         assert isinstance(elem, ar_element.ParameterInterface)
-        self._add_child("PARAMETER-INTERFACE")
+        self._add_child("PARAMETER-INTERFACE", self._collect_identifiable_attributes(elem, []))
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -2962,7 +2962,7 @@ class Writer(_XMLWriter):
         Type: Concrete
         """
         assert isinstance(elem, ar_element.SenderReceiverInterface)
-        self._add_child("SENDER-RECEIVER-INTERFACE")
+        self._add_child("SENDER-RECEIVER-INTERFACE", self._collect_identifiable_attributes(elem, []))
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -3016,7 +3016,7 @@ class Writer(_XMLWriter):
         Tag variants: 'APPLICATION-ERROR'
         """
         assert isinstance(elem, ar_element.ApplicationError)
-        self._add_child("APPLICATION-ERROR")
+        self._add_child("APPLICATION-ERROR", self._collect_identifiable_attributes(elem, []))
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -3036,7 +3036,7 @@ class Writer(_XMLWriter):
         Tag variants: 'CLIENT-SERVER-OPERATION'
         """
         assert isinstance(elem, ar_element.ClientServerOperation)
-        self._add_child("CLIENT-SERVER-OPERATION")
+        self._add_child("CLIENT-SERVER-OPERATION", self._collect_identifiable_attributes(elem, []))
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -3068,7 +3068,7 @@ class Writer(_XMLWriter):
         Tag variants: 'CLIENT-SERVER-INTERFACE'
         """
         assert isinstance(elem, ar_element.ClientServerInterface)
-        self._add_child("CLIENT-SERVER-INTERFACE")
+        self._add_child("CLIENT-SERVER-INTERFACE", self._collect_identifiable_attributes(elem, []))
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -3097,7 +3097,7 @@ class Writer(_XMLWriter):
         Tag variants: 'MODE-SWITCH-INTERFACE'
         """
         assert isinstance(elem, ar_element.ModeSwitchInterface)
-        self._add_child("MODE-SWITCH-INTERFACE")
+        self._add_child("MODE-SWITCH-INTERFACE", self._collect_identifiable_attributes(elem, []))
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -3169,7 +3169,7 @@ class Writer(_XMLWriter):
         Tag variants: 'E-2-E-PROFILE-COMPATIBILITY-PROPS'
         """
         assert isinstance(elem, ar_element.E2EProfileCompatibilityProps)
-        self._add_child("E-2-E-PROFILE-COMPATIBILITY-PROPS")
+        self._add_child("E-2-E-PROFILE-COMPATIBILITY-PROPS", self._collect_identifiable_attributes(elem, []))
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -3591,7 +3591,7 @@ class Writer(_XMLWriter):
         Tag variants: 'P-PORT-PROTOTYPE'
         """
         assert isinstance(elem, ar_element.ProvidePortPrototype)
-        self._add_child("P-PORT-PROTOTYPE")
+        self._add_child("P-PORT-PROTOTYPE", self._collect_identifiable_attributes(elem, []))
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -3616,7 +3616,7 @@ class Writer(_XMLWriter):
         Tag variants: 'R-PORT-PROTOTYPE'
         """
         assert isinstance(elem, ar_element.RequirePortPrototype)
-        self._add_child("R-PORT-PROTOTYPE")
+        self._add_child("R-PORT-PROTOTYPE", self._collect_identifiable_attributes(elem, []))
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -3643,7 +3643,7 @@ class Writer(_XMLWriter):
         Tag variants: 'PR-PORT-PROTOTYPE'
         """
         assert isinstance(elem, ar_element.PRPortPrototype)
-        self._add_child("PR-PORT-PROTOTYPE")
+        self._add_child("PR-PORT-PROTOTYPE", self._collect_identifiable_attributes(elem, []))
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -3707,7 +3707,7 @@ class Writer(_XMLWriter):
         Tag variants: 'APPLICATION-SW-COMPONENT-TYPE'
         """
         assert isinstance(elem, ar_element.ApplicationSoftwareComponentType)
-        self._add_child("APPLICATION-SW-COMPONENT-TYPE")
+        self._add_child("APPLICATION-SW-COMPONENT-TYPE", self._collect_identifiable_attributes(elem, []))
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -3721,7 +3721,7 @@ class Writer(_XMLWriter):
         Tag variants: 'SW-COMPONENT-PROTOTYPE'
         """
         assert isinstance(elem, ar_element.SwComponentPrototype)
-        self._add_child("SW-COMPONENT-PROTOTYPE")
+        self._add_child("SW-COMPONENT-PROTOTYPE", self._collect_identifiable_attributes(elem, []))
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -3764,7 +3764,7 @@ class Writer(_XMLWriter):
         Tag variants: 'ASSEMBLY-SW-CONNECTOR'
         """
         assert isinstance(elem, ar_element.AssemblySwConnector)
-        self._add_child("ASSEMBLY-SW-CONNECTOR")
+        self._add_child("ASSEMBLY-SW-CONNECTOR", self._collect_identifiable_attributes(elem, []))
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -3780,7 +3780,7 @@ class Writer(_XMLWriter):
         Tag variants: 'DELEGATION-SW-CONNECTOR'
         """
         assert isinstance(elem, ar_element.DelegationSwConnector)
-        self._add_child("DELEGATION-SW-CONNECTOR")
+        self._add_child("DELEGATION-SW-CONNECTOR", self._collect_identifiable_attributes(elem, []))
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -3802,7 +3802,7 @@ class Writer(_XMLWriter):
         Tag variants: 'PASS-THROUGH-SW-CONNECTOR'
         """
         assert isinstance(elem, ar_element.PassThroughSwConnector)
-        self._add_child("PASS-THROUGH-SW-CONNECTOR")
+        self._add_child("PASS-THROUGH-SW-CONNECTOR", self._collect_identifiable_attributes(elem, []))
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -3818,7 +3818,7 @@ class Writer(_XMLWriter):
         Tag variants: 'COMPOSITION-SW-COMPONENT-TYPE'
         """
         assert isinstance(elem, ar_element.CompositionSwComponentType)
-        self._add_child("COMPOSITION-SW-COMPONENT-TYPE")
+        self._add_child("COMPOSITION-SW-COMPONENT-TYPE", self._collect_identifiable_attributes(elem, []))
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -3852,7 +3852,7 @@ class Writer(_XMLWriter):
         Tag variants: 'SWC-IMPLEMENTATION'
         """
         assert isinstance(elem, ar_element.SwcImplementation)
-        self._add_child("SWC-IMPLEMENTATION")
+        self._add_child("SWC-IMPLEMENTATION", self._collect_identifiable_attributes(elem, []))
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4109,7 +4109,7 @@ class Writer(_XMLWriter):
         Tag variants: 'REPLACE-WITH' | 'VARIABLE-ACCESS'
         """
         assert isinstance(elem, ar_element.VariableAccess)
-        self._add_child(tag)
+        self._add_child(tag, self._collect_identifiable_attributes(elem, []))
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4186,7 +4186,7 @@ class Writer(_XMLWriter):
         Tag variants: 'ASYNCHRONOUS-SERVER-CALL-POINT'
         """
         assert isinstance(elem, ar_element.AsynchronousServerCallPoint)
-        self._add_child("ASYNCHRONOUS-SERVER-CALL-POINT")
+        self._add_child("ASYNCHRONOUS-SERVER-CALL-POINT", self._collect_identifiable_attributes(elem, []))
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4200,7 +4200,7 @@ class Writer(_XMLWriter):
         Tag variants: 'SYNCHRONOUS-SERVER-CALL-POINT'
         """
         assert isinstance(elem, ar_element.SynchronousServerCallPoint)
-        self._add_child("SYNCHRONOUS-SERVER-CALL-POINT")
+        self._add_child("SYNCHRONOUS-SERVER-CALL-POINT", self._collect_identifiable_attributes(elem, []))
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4217,7 +4217,7 @@ class Writer(_XMLWriter):
         Tag variants: 'ASYNCHRONOUS-SERVER-CALL-RESULT-POINT'
         """
         assert isinstance(elem, ar_element.AsynchronousServerCallResultPoint)
-        self._add_child("ASYNCHRONOUS-SERVER-CALL-RESULT-POINT")
+        self._add_child("ASYNCHRONOUS-SERVER-CALL-RESULT-POINT", self._collect_identifiable_attributes(elem, []))
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4238,7 +4238,7 @@ class Writer(_XMLWriter):
         Tag variants: 'IDENT'
         """
         assert isinstance(elem, ar_element.ExternalTriggeringPointIdent)
-        self._add_child("IDENT")
+        self._add_child("IDENT", self._collect_identifiable_attributes(elem, []))
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4268,7 +4268,7 @@ class Writer(_XMLWriter):
         Tag variants: 'INTERNAL-TRIGGERING-POINT'
         """
         assert isinstance(elem, ar_element.InternalTriggeringPoint)
-        self._add_child("INTERNAL-TRIGGERING-POINT")
+        self._add_child("INTERNAL-TRIGGERING-POINT", self._collect_identifiable_attributes(elem, []))
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4283,7 +4283,7 @@ class Writer(_XMLWriter):
         Tag variants: 'IDENT'
         """
         assert isinstance(elem, ar_element.ModeAccessPointIdent)
-        self._add_child("IDENT")
+        self._add_child("IDENT", self._collect_identifiable_attributes(elem, []))
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4321,7 +4321,7 @@ class Writer(_XMLWriter):
         Tag variants: 'MODE-SWITCH-POINT'
         """
         assert isinstance(elem, ar_element.ModeSwitchPoint)
-        self._add_child("MODE-SWITCH-POINT")
+        self._add_child("MODE-SWITCH-POINT", self._collect_identifiable_attributes(elem, []))
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4376,7 +4376,7 @@ class Writer(_XMLWriter):
         Tag variants: 'PARAMETER-ACCESS'
         """
         assert isinstance(elem, ar_element.ParameterAccess)
-        self._add_child("PARAMETER-ACCESS")
+        self._add_child("PARAMETER-ACCESS", self._collect_identifiable_attributes(elem, []))
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4399,7 +4399,7 @@ class Writer(_XMLWriter):
         Tag variants: 'WAIT-POINT'
         """
         assert isinstance(elem, ar_element.WaitPoint)
-        self._add_child("WAIT-POINT")
+        self._add_child("WAIT-POINT", self._collect_identifiable_attributes(elem, []))
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4473,7 +4473,7 @@ class Writer(_XMLWriter):
         This is in early stage, most will be implemented later
         """
         assert isinstance(elem, ar_element.RunnableEntity)
-        self._add_child("RUNNABLE-ENTITY")
+        self._add_child("RUNNABLE-ENTITY", self._collect_identifiable_attributes(elem, []))
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4591,7 +4591,7 @@ class Writer(_XMLWriter):
         Tag variants: 'ASYNCHRONOUS-SERVER-CALL-RETURNS-EVENT'
         """
         assert isinstance(elem, ar_element.AsynchronousServerCallReturnsEvent)
-        self._add_child("ASYNCHRONOUS-SERVER-CALL-RETURNS-EVENT")
+        self._add_child("ASYNCHRONOUS-SERVER-CALL-RETURNS-EVENT", self._collect_identifiable_attributes(elem, []))
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4606,7 +4606,7 @@ class Writer(_XMLWriter):
         Tag variants: 'BACKGROUND-EVENT'
         """
         assert isinstance(elem, ar_element.BackgroundEvent)
-        self._add_child("BACKGROUND-EVENT")
+        self._add_child("BACKGROUND-EVENT", self._collect_identifiable_attributes(elem, []))
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4619,7 +4619,7 @@ class Writer(_XMLWriter):
         Tag variants: 'DATA-RECEIVE-ERROR-EVENT'
         """
         assert isinstance(elem, ar_element.DataReceiveErrorEvent)
-        self._add_child("DATA-RECEIVE-ERROR-EVENT")
+        self._add_child("DATA-RECEIVE-ERROR-EVENT", self._collect_identifiable_attributes(elem, []))
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4634,7 +4634,7 @@ class Writer(_XMLWriter):
         Tag variants: 'DATA-RECEIVED-EVENT'
         """
         assert isinstance(elem, ar_element.DataReceivedEvent)
-        self._add_child("DATA-RECEIVED-EVENT")
+        self._add_child("DATA-RECEIVED-EVENT", self._collect_identifiable_attributes(elem, []))
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4649,7 +4649,7 @@ class Writer(_XMLWriter):
         Tag variants: 'DATA-SEND-COMPLETED-EVENT'
         """
         assert isinstance(elem, ar_element.DataSendCompletedEvent)
-        self._add_child("DATA-SEND-COMPLETED-EVENT")
+        self._add_child("DATA-SEND-COMPLETED-EVENT", self._collect_identifiable_attributes(elem, []))
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4664,7 +4664,7 @@ class Writer(_XMLWriter):
         Tag variants: 'DATA-WRITE-COMPLETED-EVENT'
         """
         assert isinstance(elem, ar_element.DataWriteCompletedEvent)
-        self._add_child("DATA-WRITE-COMPLETED-EVENT")
+        self._add_child("DATA-WRITE-COMPLETED-EVENT", self._collect_identifiable_attributes(elem, []))
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4679,7 +4679,7 @@ class Writer(_XMLWriter):
         Tag variants: 'EXTERNAL-TRIGGER-OCCURRED-EVENT'
         """
         assert isinstance(elem, ar_element.ExternalTriggerOccurredEvent)
-        self._add_child("EXTERNAL-TRIGGER-OCCURRED-EVENT")
+        self._add_child("EXTERNAL-TRIGGER-OCCURRED-EVENT", self._collect_identifiable_attributes(elem, []))
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4694,7 +4694,7 @@ class Writer(_XMLWriter):
         Tag variants: 'INIT-EVENT'
         """
         assert isinstance(elem, ar_element.InitEvent)
-        self._add_child("INIT-EVENT")
+        self._add_child("INIT-EVENT", self._collect_identifiable_attributes(elem, []))
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4707,7 +4707,7 @@ class Writer(_XMLWriter):
         Tag variants: 'INTERNAL-TRIGGER-OCCURRED-EVENT'
         """
         assert isinstance(elem, ar_element.InternalTriggerOccurredEvent)
-        self._add_child("INTERNAL-TRIGGER-OCCURRED-EVENT")
+        self._add_child("INTERNAL-TRIGGER-OCCURRED-EVENT", self._collect_identifiable_attributes(elem, []))
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4722,7 +4722,7 @@ class Writer(_XMLWriter):
         Tag variants: 'MODE-SWITCHED-ACK-EVENT'
         """
         assert isinstance(elem, ar_element.ModeSwitchedAckEvent)
-        self._add_child("MODE-SWITCHED-ACK-EVENT")
+        self._add_child("MODE-SWITCHED-ACK-EVENT", self._collect_identifiable_attributes(elem, []))
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4737,7 +4737,7 @@ class Writer(_XMLWriter):
         Tag variants: 'OPERATION-INVOKED-EVENT'
         """
         assert isinstance(elem, ar_element.OperationInvokedEvent)
-        self._add_child("OPERATION-INVOKED-EVENT")
+        self._add_child("OPERATION-INVOKED-EVENT", self._collect_identifiable_attributes(elem, []))
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4752,7 +4752,7 @@ class Writer(_XMLWriter):
         Tag variants: 'SWC-MODE-MANAGER-ERROR-EVENT'
         """
         assert isinstance(elem, ar_element.SwcModeManagerErrorEvent)
-        self._add_child("SWC-MODE-MANAGER-ERROR-EVENT")
+        self._add_child("SWC-MODE-MANAGER-ERROR-EVENT", self._collect_identifiable_attributes(elem, []))
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4767,7 +4767,7 @@ class Writer(_XMLWriter):
         Tag variants: 'SWC-MODE-SWITCH-EVENT'
         """
         assert isinstance(elem, ar_element.SwcModeSwitchEvent)
-        self._add_child("SWC-MODE-SWITCH-EVENT")
+        self._add_child("SWC-MODE-SWITCH-EVENT", self._collect_identifiable_attributes(elem, []))
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4796,7 +4796,7 @@ class Writer(_XMLWriter):
         Tag variants: 'TIMING-EVENT'
         """
         assert isinstance(elem, ar_element.TimingEvent)
-        self._add_child("TIMING-EVENT")
+        self._add_child("TIMING-EVENT", self._collect_identifiable_attributes(elem, []))
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4813,7 +4813,7 @@ class Writer(_XMLWriter):
         Tag variants: 'TRANSFORMER-HARD-ERROR-EVENT'
         """
         assert isinstance(elem, ar_element.TransformerHardErrorEvent)
-        self._add_child("TRANSFORMER-HARD-ERROR-EVENT")
+        self._add_child("TRANSFORMER-HARD-ERROR-EVENT", self._collect_identifiable_attributes(elem, []))
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4911,7 +4911,7 @@ class Writer(_XMLWriter):
         Writes complex type AR:EXCLUSIVE-AREA
         Tag variants: 'EXCLUSIVE-AREA'
         """
-        self._add_child("EXCLUSIVE-AREA")
+        self._add_child("EXCLUSIVE-AREA", self._collect_identifiable_attributes(elem, []))
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4922,7 +4922,7 @@ class Writer(_XMLWriter):
         Writes complex type AR:SWC-INTERNAL-BEHAVIOR
         Tag variants: 'SWC-INTERNAL-BEHAVIOR'
         """
-        self._add_child("SWC-INTERNAL-BEHAVIOR")
+        self._add_child("SWC-INTERNAL-BEHAVIOR", self._collect_identifiable_attributes(elem, []))
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
-- 
2.43.0


From 5bcac2bec944ec92bf922e6831cc2fece326a4d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:05 +0000
Subject: [PATCH 02/54] fix: escape XML special characters in written texts and
 attributes

Texts containing &, <, >, quotes, line breaks in attributes or carriage
returns produced files that could not be read or read back differently.
---
 src/autosar/xml/writer.py | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/autosar/xml/writer.py b/src/autosar/xml/writer.py
index bb7ee88..1c9ef1f 100644
--- a/src/autosar/xml/writer.py
+++ b/src/autosar/xml/writer.py
@@ -7,6 +7,7 @@ from typing import TextIO
 import sys
 import math
 import decimal
+from xml.sax.saxutils import escape
 import autosar.base as ar_base
 import autosar.xml.document as ar_document
 import autosar.xml.element as ar_element
@@ -72,6 +73,18 @@ class _XMLWriter:
     def _add_inline_text(self, text):
         self.fh.write(text)
 
+    def _escape_text(self, text: str) -> str:
+        """
+        Escapes characters with special meaning in XML character data
+        """
+        return escape(text, {'\r': '&#13;'})
+
+    def _escape_attr(self, text: str) -> str:
+        """
+        Escapes characters with special meaning in XML attribute values
+        """
+        return escape(text, {'"': '&quot;', '\t': '&#9;', '\n': '&#10;', '\r': '&#13;'})
+
     def _add_child(self, tag: str, attr: TupleList = None):
         if attr:
             self._add_line(f'<{tag} {self._attr_to_str(attr)}>')
@@ -102,6 +115,7 @@ class _XMLWriter:
 
     def _add_content(self, tag: str, content: str = '', attr: TupleList = None, inline: bool = False):
         assert isinstance(content, str)
+        content = self._escape_text(content)
         if attr:
             if content:
                 text = f'<{tag} {self._attr_to_str(attr)}>{content}</{tag}>'
@@ -121,7 +135,7 @@ class _XMLWriter:
         """
         Converts pairs (2-tuples) into attribute XML string
         """
-        parts = [f'{elem[0]}="{elem[1]}"' for elem in attr]
+        parts = [f'{elem[0]}="{self._escape_attr(str(elem[1]))}"' for elem in attr]
         return ' '.join(parts)
 
     def _format_float(self, value: float) -> str:
@@ -705,7 +719,7 @@ class Writer(_XMLWriter):
         self._begin_line(tag, attr)
         for part in elem.parts:
             if isinstance(part, str):
-                self._add_inline_text(part)
+                self._add_inline_text(self._escape_text(part))
             elif isinstance(part, ar_element.EmphasisText):
                 self._write_emphasis_text(part, inline=True)
             elif isinstance(part, ar_element.IndexEntry):
@@ -785,7 +799,7 @@ class Writer(_XMLWriter):
         self._begin_line(tag, attr)
         for part in elem.parts:
             if isinstance(part, str):
-                self._add_inline_text(part)
+                self._add_inline_text(self._escape_text(part))
             elif isinstance(part, ar_element.Break):
                 self._write_break(part, inline=True)
             elif isinstance(part, ar_element.EmphasisText):
@@ -815,7 +829,7 @@ class Writer(_XMLWriter):
         self._begin_line(tag, attr)
         for part in elem.parts:
             if isinstance(part, str):
-                self._add_inline_text(part)
+                self._add_inline_text(self._escape_text(part))
             elif isinstance(part, ar_element.Break):
                 self._write_break(part, inline=True)
             elif isinstance(part, ar_element.EmphasisText):
@@ -845,7 +859,7 @@ class Writer(_XMLWriter):
         self._begin_line(tag, attr)
         for part in elem.parts:
             if isinstance(part, str):
-                self._add_inline_text(part)
+                self._add_inline_text(self._escape_text(part))
             elif isinstance(part, ar_element.Break):
                 self._write_break(part, inline=True)
             elif isinstance(part, ar_element.EmphasisText):
@@ -925,7 +939,7 @@ class Writer(_XMLWriter):
         self._begin_line(tag)
         for part in elem.parts:
             if isinstance(part, str):
-                self._add_inline_text(part)
+                self._add_inline_text(self._escape_text(part))
             elif isinstance(part, ar_element.Subscript):
                 self._write_subscript(part)
             elif isinstance(part, ar_element.Superscript):
-- 
2.43.0


From e02fcbf66107f7da86a6f1b9ff95f10addd22685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:02 +0000
Subject: [PATCH 03/54] fix: close the output file when writing it fails

The handle stayed open with buffered data, which reached the file later,
on top of whatever had been written to it in between.
---
 src/autosar/xml/writer.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/autosar/xml/writer.py b/src/autosar/xml/writer.py
index 1c9ef1f..a3d04a8 100644
--- a/src/autosar/xml/writer.py
+++ b/src/autosar/xml/writer.py
@@ -425,8 +425,10 @@ class Writer(_XMLWriter):
         Serialized the document to file
         """
         self._open(file_path)
-        self._write_document(document)
-        self._close()
+        try:
+            self._write_document(document)
+        finally:
+            self._close()
 
     def write_str_elem(self, elem: ar_element.ARObject, tag: str | None = None):
         """
@@ -450,13 +452,15 @@ class Writer(_XMLWriter):
         Writes single ARXML element to file
         """
         self._open(file_path)
-        class_name = elem.__class__.__name__
-        write_method = self.switcher_collectable.get(class_name, None)
-        if write_method is not None:
-            write_method(elem)
-        else:
-            raise NotImplementedError(f"Found no writer for {class_name}")
-        self._close()
+        try:
+            class_name = elem.__class__.__name__
+            write_method = self.switcher_collectable.get(class_name, None)
+            if write_method is not None:
+                write_method(elem)
+            else:
+                raise NotImplementedError(f"Found no writer for {class_name}")
+        finally:
+            self._close()
 
     # Abstract base classes
 
-- 
2.43.0


From b89c00e3ba79d2c0e04b189466d385e61690c7c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:22 +0000
Subject: [PATCH 04/54] fix: readers and writers no longer carry the schema
 version of earlier documents

A document without schema information was given the version of the document
read before it, and single elements were written or read with the version of
an unrelated earlier document.
---
 src/autosar/xml/reader.py | 8 ++++++++
 src/autosar/xml/writer.py | 7 +++++++
 2 files changed, 15 insertions(+)

diff --git a/src/autosar/xml/reader.py b/src/autosar/xml/reader.py
index 5c4efe6..ee76638 100644
--- a/src/autosar/xml/reader.py
+++ b/src/autosar/xml/reader.py
@@ -125,6 +125,7 @@ class Reader:
         self.observed_unsupported_elements = None
         self.schema_file: str = ''
         self.schema_version = schema_version
+        self.default_schema_version = schema_version
         self.document: ar_document.Document = None
         self.stop_on_error = False
         self.switcher_collectable = {  # Collectable elements
@@ -384,6 +385,11 @@ class Reader:
         """
         self.observed_unsupported_elements = set()
         elem = ElementTree.fromstring(xml)
+        self.file_path = None
+        self.file_base_name = None
+        self.stop_on_error = False
+        self.schema_file = ''
+        self.schema_version = self.default_schema_version
         if type_name is not None:
             read_method = self._switcher_type_name.get(type_name, None)
         else:
@@ -587,6 +593,8 @@ class Reader:
 #                self._read_file_info_comment(xml_node, self.document)
 
     def _read_schema_version(self) -> None:
+        self.schema_file = ''
+        self.schema_version = self.default_schema_version
         for key in self.xml_root.attrib.keys():
             if key.endswith('schemaLocation'):
                 match = re.search(r'AUTOSAR_(\d+).xsd',
diff --git a/src/autosar/xml/writer.py b/src/autosar/xml/writer.py
index a3d04a8..3119349 100644
--- a/src/autosar/xml/writer.py
+++ b/src/autosar/xml/writer.py
@@ -514,7 +514,14 @@ class Writer(_XMLWriter):
     # AUTOSAR Document
 
     def _write_document(self, document: ar_document.Document, skip_root_attr: bool = False):
+        schema_version = self.schema_version
         self.schema_version = document.schema_version
+        try:
+            self._write_document_content(document, skip_root_attr)
+        finally:
+            self.schema_version = schema_version
+
+    def _write_document_content(self, document: ar_document.Document, skip_root_attr: bool):
         self._add_line('<?xml version="1.0" encoding="utf-8"?>')
         if skip_root_attr:
             self._add_child("AUTOSAR")
-- 
2.43.0


From 508ac3dfa306153ba1b1a947ba6412f4484d5277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:03 +0000
Subject: [PATCH 05/54] fix: read mixed text content completely

Every inline element other than TT raised a parse error, and the text after
an inline element was replaced by the text before it.
---
 src/autosar/xml/reader.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/autosar/xml/reader.py b/src/autosar/xml/reader.py
index ee76638..2d6885f 100644
--- a/src/autosar/xml/reader.py
+++ b/src/autosar/xml/reader.py
@@ -874,13 +874,13 @@ class Reader:
                 elem.append(self._read_subscript(xml_child_elem))
             elif xml_child_elem.tag == 'SUP':
                 elem.append(self._read_superscript(xml_child_elem))
-            if xml_child_elem.tag == 'TT':
+            elif xml_child_elem.tag == 'TT':
                 elem.append(self._read_technical_term(xml_child_elem))
             else:
                 self._raise_parse_error(
                     xml_child_elem, f"Invalid element: <{xml_child_elem.tag}>")
             if xml_child_elem.tail:
-                elem.append(xml_elem.text)
+                elem.append(xml_child_elem.tail)
 
     def _read_multi_language_overview_paragraph(self,
                                                 xml_elem: ElementTree.Element) -> MultiLanguageOverviewParagraph:
@@ -931,7 +931,7 @@ class Reader:
                 elem.append(self._read_subscript(xml_child_elem))
             elif xml_child_elem.tag == 'SUP':
                 elem.append(self._read_superscript(xml_child_elem))
-            if xml_child_elem.tag == 'TT':
+            elif xml_child_elem.tag == 'TT':
                 elem.append(self._read_technical_term(xml_child_elem))
             elif xml_child_elem.tag in {'FT', 'TRACE-REF', 'XREF'}:
                 # These elements are not yet supported
@@ -940,7 +940,7 @@ class Reader:
                 self._raise_parse_error(
                     xml_child_elem, f"Invalid element: <{xml_child_elem.tag}>")
             if xml_child_elem.tail:
-                elem.append(xml_elem.text)
+                elem.append(xml_child_elem.tail)
 
     def _read_language_paragraph(self, xml_elem: ElementTree.Element) -> ar_element.LanguageParagraph:
         """
@@ -986,7 +986,7 @@ class Reader:
                 elem.append(self._read_subscript(xml_child_elem))
             elif xml_child_elem.tag == 'SUP':
                 elem.append(self._read_superscript(xml_child_elem))
-            if xml_child_elem.tag == 'TT':
+            elif xml_child_elem.tag == 'TT':
                 elem.append(self._read_technical_term(xml_child_elem))
             elif xml_child_elem.tag in {'FT',
                                         'STD',
@@ -1001,7 +1001,7 @@ class Reader:
                 self._raise_parse_error(
                     xml_child_elem, f"Invalid element: <{xml_child_elem.tag}>")
             if xml_child_elem.tail:
-                elem.append(xml_elem.text)
+                elem.append(xml_child_elem.tail)
 
     def _read_mixed_content_for_verbatim(self,
                                          xml_elem: ElementTree.Element,
@@ -1017,7 +1017,7 @@ class Reader:
                 elem.append(self._read_break(xml_child_elem))
             elif xml_child_elem.tag == 'E':
                 elem.append(self._read_emphasis_text(xml_child_elem))
-            if xml_child_elem.tag == 'TT':
+            elif xml_child_elem.tag == 'TT':
                 elem.append(self._read_technical_term(xml_child_elem))
             elif xml_child_elem.tag in {'XREF'}:
                 # These elements are not yet supported
@@ -1026,7 +1026,7 @@ class Reader:
                 self._raise_parse_error(
                     xml_child_elem, f"Invalid element: <{xml_child_elem.tag}>")
             if xml_child_elem.tail:
-                elem.append(xml_elem.text)
+                elem.append(xml_child_elem.tail)
 
     def _read_multi_language_paragraph(self,
                                        xml_elem: ElementTree.Element) -> ar_element.MultiLanguageParagraph:
@@ -1131,7 +1131,7 @@ class Reader:
                 self._raise_parse_error(
                     xml_child_elem, f"Invalid element: <{xml_child_elem.tag}>")
             if xml_child_elem.tail:
-                elem.append(xml_element.text)
+                elem.append(xml_child_elem.tail)
 
     def _read_describable(self,
                           child_elements: ChildElementMap, data: dict) -> None:
-- 
2.43.0


From f6005243e472257c458f47c5aa82c8d626eacb3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:13 +0000
Subject: [PATCH 06/54] fix: accept every inline element that mixed text
 content can hold

Superscripts were rejected in texts, breaks in descriptions, a unit name
given as string was split into characters, and an empty emphasis that had
been read could not be written.
---
 src/autosar/xml/element.py | 16 ++++++++--------
 src/autosar/xml/writer.py  |  4 +++-
 2 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index b91e301..0956850 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -591,11 +591,11 @@ class MixedContentForLongName(LanguageSpecific):
         super().__init__(language)
         self.parts = []  # Unbounded list of str | TT | E | SUP | SUB | IE
 
-    def append(self, part: str | TechnicalTerm | EmphasisText | Subscript | Subscript):
+    def append(self, part: str | TechnicalTerm | EmphasisText | Subscript | Superscript):
         """
         Checks type validity before adding element to elements
         """
-        if isinstance(part, (str, TechnicalTerm, EmphasisText, Subscript, Subscript, IndexEntry)):
+        if isinstance(part, (str, TechnicalTerm, EmphasisText, Subscript, Superscript, IndexEntry)):
             self.parts.append(part)
         else:
             raise TypeError('Unsupported element type: ' + str(type(part)))
@@ -608,17 +608,17 @@ class MixedContentForOverviewParagraph(LanguageSpecific):
 
     def __init__(self, language: ar_enum.Language) -> None:
         super().__init__(language)
-        self.parts = []  # Unbounded list of str | TT | E | SUP | SUB | IE
+        self.parts = []  # Unbounded list of str | BR | TT | E | SUP | SUB | IE
         # Unsupported elements:
         # FT : AR:SL-OVERVIEW-PARAGRAPH
         # TRACE-REF: Complex type
         # XREF: AR:-XREF-TARGET
 
-    def append(self, part: str | TechnicalTerm | EmphasisText | Subscript | Subscript):
+    def append(self, part: str | Break | TechnicalTerm | EmphasisText | Subscript | Superscript):
         """
         Checks type validity before adding element to elements
         """
-        if isinstance(part, (str, TechnicalTerm, EmphasisText, Subscript, Subscript, IndexEntry)):
+        if isinstance(part, (str, Break, TechnicalTerm, EmphasisText, Subscript, Superscript, IndexEntry)):
             self.parts.append(part)
         else:
             raise TypeError('Unsupported element type: ' + str(type(part)))
@@ -799,11 +799,11 @@ class MixedContentForParagraph(LanguageSpecific):
         # XREF-TARGET: AR:-XREF-TARGET
 
     def append(self,
-               part: str | Break | EmphasisText | IndexEntry | Subscript | Subscript | TechnicalTerm):
+               part: str | Break | EmphasisText | IndexEntry | Subscript | Superscript | TechnicalTerm):
         """
         Checks type validity before adding element to elements
         """
-        if isinstance(part, (str, Break, EmphasisText, IndexEntry, Subscript, Subscript, TechnicalTerm)):
+        if isinstance(part, (str, Break, EmphasisText, IndexEntry, Subscript, Superscript, TechnicalTerm)):
             self.parts.append(part)
         else:
             raise TypeError('Unsupported element type: ' + str(type(part)))
@@ -977,7 +977,7 @@ class SingleLanguageUnitNames(MixedContentForUnitNames):
     def __init__(self, parts: str | list | None = None) -> None:
         super().__init__()
         if parts is not None:
-            if isinstance(parts, Iterable):
+            if isinstance(parts, Iterable) and not isinstance(parts, str):
                 for part in parts:
                     self.append(part)
             else:
diff --git a/src/autosar/xml/writer.py b/src/autosar/xml/writer.py
index 3119349..8b1f0fb 100644
--- a/src/autosar/xml/writer.py
+++ b/src/autosar/xml/writer.py
@@ -644,7 +644,9 @@ class Writer(_XMLWriter):
         """
         assert isinstance(elem, ar_element.EmphasisText)
         attr = self._collect_emphasis_text_attributes(elem)
-        if len(elem.elements) == 1 and isinstance(elem.elements[0], str):
+        if len(elem.elements) == 0:
+            self._add_content('E', '', attr, inline=inline)
+        elif len(elem.elements) == 1 and isinstance(elem.elements[0], str):
             self._add_content('E', elem.elements[0], attr, inline=inline)
         else:
             raise NotImplementedError(
-- 
2.43.0


From 1170553d012c6e5b642543e2344985ff6f30a3b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:05 +0000
Subject: [PATCH 07/54] fix: write all annotations of an element inside one
 ANNOTATIONS element

Each was wrapped in its own, of which only the first is read back.
---
 src/autosar/xml/writer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/autosar/xml/writer.py b/src/autosar/xml/writer.py
index 8b1f0fb..48e7112 100644
--- a/src/autosar/xml/writer.py
+++ b/src/autosar/xml/writer.py
@@ -601,10 +601,10 @@ class Writer(_XMLWriter):
         """
         tag = 'ANNOTATIONS'
         if elements:
+            self._add_child(tag)
             for elem in elements:
-                self._add_child(tag)
                 self._write_annotation(elem)
-                self._leave_child()
+            self._leave_child()
         else:
             self._add_content(tag)
 
-- 
2.43.0


From 28f0a202d4dcb0d6c94f10bb7e87853e6e993d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:13 +0000
Subject: [PATCH 08/54] fix: write integral floats of 1e28 and above

Formatting them raised decimal.InvalidOperation.
---
 src/autosar/xml/writer.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/autosar/xml/writer.py b/src/autosar/xml/writer.py
index 48e7112..46a4adb 100644
--- a/src/autosar/xml/writer.py
+++ b/src/autosar/xml/writer.py
@@ -149,7 +149,10 @@ class _XMLWriter:
             return 'NaN'
         else:
             tmp = decimal.Decimal(str(value))
-            result = tmp.quantize(decimal.Decimal(1)) if tmp == tmp.to_integral() else tmp.normalize()
+            if tmp == tmp.to_integral() and tmp.adjusted() < decimal.getcontext().prec:
+                result = tmp.quantize(decimal.Decimal(1))
+            else:
+                result = tmp.normalize()
             return str(result)
 
     def _format_number(self, number: int | float | ar_element.NumericalValue) -> str:
-- 
2.43.0


From 45bdb8ddaca658f89587ad4ba2901d80cd9107af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:13 +0000
Subject: [PATCH 09/54] fix: a unit keeps the physical dimension reference it
 is given as string

The display name was stored in its place.
---
 src/autosar/xml/element.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index 0956850..5213f19 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -1541,7 +1541,7 @@ class Unit(ARElement):
                 raise TypeError(f"display_name: Invalid type '{str(type(display_name))}'")
         if physical_dimension_ref is not None:
             if isinstance(physical_dimension_ref, str):
-                self.physical_dimension_ref = PhysicalDimensionRef(display_name)
+                self.physical_dimension_ref = PhysicalDimensionRef(physical_dimension_ref)
             elif isinstance(physical_dimension_ref, PhysicalDimensionRef):
                 self.physical_dimension_ref = physical_dimension_ref
             else:
-- 
2.43.0


From b4c97e93975138129ce4277b83a12f277c9516a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:36 +0000
Subject: [PATCH 10/54] fix: a client-server interface accepts a single
 possible error

It was handed to the operation list, which rejects it.
---
 src/autosar/xml/element.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index 5213f19..b5b1d77 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -3775,7 +3775,7 @@ class ClientServerInterface(PortInterface):
 
         if possible_errors is not None:
             if isinstance(possible_errors, ApplicationError):
-                self.append_operation(possible_errors)
+                self.append_possible_errors(possible_errors)
             elif isinstance(possible_errors, list):
                 for possible_error in possible_errors:
                     self.append_possible_errors(possible_error)
-- 
2.43.0


From 1e5ec4c06318282514cf65779c37c4214a137fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:39 +0000
Subject: [PATCH 11/54] fix: read the validity of scale constraints

---
 src/autosar/xml/reader.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/autosar/xml/reader.py b/src/autosar/xml/reader.py
index 2d6885f..711b1b8 100644
--- a/src/autosar/xml/reader.py
+++ b/src/autosar/xml/reader.py
@@ -1455,6 +1455,8 @@ class Reader:
             limit, interval_type = self._read_limit(xml_child)
             data["upper_limit"] = limit
             data["upper_limit_type"] = interval_type
+        if "VALIDITY" in xml_element.attrib:
+            data["validity"] = ar_enum.xml_to_enum("ScaleConstraintValidity", xml_element.attrib["VALIDITY"])
         return ar_element.ScaleConstraint(**data)
 
     # --- Unit elements
-- 
2.43.0


From 6fa5bbeae966cdd7bd05b1fbf666bd41dade72f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:39 +0000
Subject: [PATCH 12/54] fix: a provide-require port accepts a list of provided
 com-specs

The type of the other argument was tested.
---
 src/autosar/xml/element.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index b5b1d77..e1be8f7 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -4813,7 +4813,7 @@ class PRPortPrototype(PortPrototype):
         if provided_com_spec is not None:
             if isinstance(provided_com_spec, ProvidePortComSpec):
                 self.append_com_spec(provided_com_spec)
-            elif isinstance(required_com_spec, (list, tuple)):
+            elif isinstance(provided_com_spec, (list, tuple)):
                 for com_spec_elem in provided_com_spec:
                     self.append_com_spec(com_spec_elem)
             else:
-- 
2.43.0


From b2edab3914a219edc58547c4c6357ba92c9b4b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:25 +0000
Subject: [PATCH 13/54] fix: close the type header file when writing it fails

---
 src/autosar/generator/type_generator.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/autosar/generator/type_generator.py b/src/autosar/generator/type_generator.py
index 8ecb9d0..c793df4 100644
--- a/src/autosar/generator/type_generator.py
+++ b/src/autosar/generator/type_generator.py
@@ -36,9 +36,9 @@ class TypeGenerator:
         Generates Rte_Type.h in destination directory
         """
         file_path = os.path.join(dest_dir, "Rte_Type.h")
-        writer = cfile.Writer(cfile.StyleOptions())
-        code = self._create_code_sequence()
-        writer.write_file(code, file_path)
+        text = self.write_type_header_str()
+        with open(file_path, "w", encoding="utf-8") as fh:  # pylint: disable=C0103
+            fh.write(text)
 
     def _create_code_sequence(self) -> cfile.core.Sequence:
 
-- 
2.43.0


From 0070dbdcc37a922c02004b51846501584d6ced8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:28 +0000
Subject: [PATCH 14/54] fix: the type header no longer depends on failed or
 repeated type requests

---
 src/autosar/model/implementation.py | 49 ++++++++++++++++-------------
 1 file changed, 27 insertions(+), 22 deletions(-)

diff --git a/src/autosar/model/implementation.py b/src/autosar/model/implementation.py
index 4852458..e4c30a2 100644
--- a/src/autosar/model/implementation.py
+++ b/src/autosar/model/implementation.py
@@ -49,29 +49,34 @@ class ImplementationModel:
         """
         Creates new application element from xml-based element
         """
-        elem_ref = element.ref()
+        elem_ref = str(element.ref())
+        if elem_ref not in self.data_types:
+            self._create_data_type(element)
+        if is_source:
+            self.source_type_refs.add(elem_ref)
+        return self.data_types[elem_ref]
 
-        if str(elem_ref) not in self.data_types:
-            if is_source:
-                self.source_type_refs.add(str(elem_ref))
-            if isinstance(element, ar_element.SwBaseType):
-                return self._create_base_type(element)
-            elif isinstance(element, ar_element.ImplementationDataType):
-                assert isinstance(element.category, str)
-                if element.category == "VALUE":
-                    return self._create_scalar_type_from_element(element)
-                if element.category == "TYPE_REFERENCE":
-                    return self._create_ref_type_from_element(element)
-                if element.category == "ARRAY":
-                    return self._create_array_type_from_element(element)
-                if element.category == "STRUCTURE":
-                    return self._create_struct_type_from_element(element)
-                if element.category == "DATA_REFERENCE":
-                    return self._create_ptr_type_from_element(element)
-                raise NotImplementedError("ImplementationDataType::" + str(element.category))
-            else:
-                raise NotImplementedError(str(type(element)))
-        return self.data_types[str(elem_ref)]
+    def _create_data_type(self, element: ar_element.ARElement) -> rte_element.DataType:
+        """
+        Creates new data type from xml-based element and adds it to internal model
+        """
+        if isinstance(element, ar_element.SwBaseType):
+            return self._create_base_type(element)
+        elif isinstance(element, ar_element.ImplementationDataType):
+            assert isinstance(element.category, str)
+            if element.category == "VALUE":
+                return self._create_scalar_type_from_element(element)
+            if element.category == "TYPE_REFERENCE":
+                return self._create_ref_type_from_element(element)
+            if element.category == "ARRAY":
+                return self._create_array_type_from_element(element)
+            if element.category == "STRUCTURE":
+                return self._create_struct_type_from_element(element)
+            if element.category == "DATA_REFERENCE":
+                return self._create_ptr_type_from_element(element)
+            raise NotImplementedError("ImplementationDataType::" + str(element.category))
+        else:
+            raise NotImplementedError(str(type(element)))
 
     def gen_type_dependency_trees(self) -> list[Node]:
         """
-- 
2.43.0


From 44e6915864244d030d01495214f94e5591927412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:31 +0000
Subject: [PATCH 15/54] fix: type references honour their type emitter

---
 src/autosar/model/element.py        | 5 +++--
 src/autosar/model/implementation.py | 6 +++++-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/autosar/model/element.py b/src/autosar/model/element.py
index 8e28a46..af8b603 100644
--- a/src/autosar/model/element.py
+++ b/src/autosar/model/element.py
@@ -123,8 +123,9 @@ class RefType(ImplementationType):
                  name: str,
                  impl_type: ImplementationType,
                  symbol_name: str | None = None,
-                 const: bool = False) -> None:
-        super().__init__(xml_ref, name, symbol_name, const)
+                 const: bool = False,
+                 type_emitter: str | None = None) -> None:
+        super().__init__(xml_ref, name, symbol_name, const, type_emitter)
         self.impl_type = impl_type
 
 
diff --git a/src/autosar/model/implementation.py b/src/autosar/model/implementation.py
index e4c30a2..ae2aed7 100644
--- a/src/autosar/model/implementation.py
+++ b/src/autosar/model/implementation.py
@@ -142,7 +142,11 @@ class ImplementationModel:
         symbol = None
         if element.symbol_props is not None:
             symbol = element.symbol_props.symbol
-        ref_type = rte_element.RefType(str(elem_ref), element.name, impl_type, symbol)
+        ref_type = rte_element.RefType(str(elem_ref),
+                                       element.name,
+                                       impl_type,
+                                       symbol,
+                                       type_emitter=element.type_emitter)
         self.data_types[str(elem_ref)] = ref_type
         return ref_type
 
-- 
2.43.0


From cfe84d2af3a2bf6b9bbcfe006967a8e765d1c959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:56 +0000
Subject: [PATCH 16/54] fix: generate the header of requested pointer types
 instead of failing

---
 src/autosar/generator/type_generator.py | 4 ++++
 src/autosar/model/implementation.py     | 2 ++
 2 files changed, 6 insertions(+)

diff --git a/src/autosar/generator/type_generator.py b/src/autosar/generator/type_generator.py
index c793df4..0b317eb 100644
--- a/src/autosar/generator/type_generator.py
+++ b/src/autosar/generator/type_generator.py
@@ -109,6 +109,10 @@ class TypeGenerator:
                 code.append(C.statement(C.declaration(C.typedef(data_type.name, data_type.base_type.name))))
             elif isinstance(data_type, rte_element.RefType):
                 code.append(C.statement(C.declaration(C.typedef(data_type.name, data_type.impl_type.name))))
+            elif isinstance(data_type, rte_element.PointerType):
+                code.append(C.statement(C.declaration(C.typedef(data_type.name,
+                                                                data_type.target_type.name,
+                                                                pointer=True))))
             elif isinstance(data_type, rte_element.ArrayType):
                 code.append(self._gen_array_type_def(data_type))
             elif isinstance(data_type, rte_element.RecordType):
diff --git a/src/autosar/model/implementation.py b/src/autosar/model/implementation.py
index ae2aed7..1cad2ab 100644
--- a/src/autosar/model/implementation.py
+++ b/src/autosar/model/implementation.py
@@ -282,6 +282,8 @@ class ImplementationModel:
             node.add_child(self._create_tree_node(data_type.base_type))
         elif isinstance(data_type, rte_element.RefType):
             node.add_child(self._create_tree_node(data_type.impl_type))
+        elif isinstance(data_type, rte_element.PointerType):
+            node.add_child(self._create_tree_node(data_type.target_type))
         elif isinstance(data_type, rte_element.ArrayType):
             last_element: rte_element.ArrayTypeElement = data_type.sub_elements[-1]
             self._process_array_or_record_element_tree_node(node, last_element.data_type)
-- 
2.43.0


From c2f2eff08c5d70ec18552252088b7e057f2274de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:59 +0000
Subject: [PATCH 17/54] fix: writing documents leaves the workspace's packages
 and elements in place

---
 src/autosar/xml/workspace.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/autosar/xml/workspace.py b/src/autosar/xml/workspace.py
index a343455..b20b7e9 100644
--- a/src/autosar/xml/workspace.py
+++ b/src/autosar/xml/workspace.py
@@ -22,7 +22,6 @@ class DocumentConfig:
     """
 
     def __init__(self, file_path: str, package_refs: list[str] | str | None = None) -> None:
-        self.document = ar_document.Document()
         self.file_path = file_path
         self.package_refs: list[str] = []
         if isinstance(package_refs, str):
@@ -227,16 +226,20 @@ class Workspace(ar_element.PackageCollection):
                                     writer: Writer,
                                     schema_version: int,
                                     document_config: DocumentConfig) -> None:
-        document = document_config.document
+        document = ar_document.Document(schema_version=schema_version)
         file_path = document_config.file_path
         package_refs = document_config.package_refs
-        document.schema_version = schema_version
+        package_names = set()
         for package_ref in package_refs:
             package = self.find(package_ref)
             if package is not None:
                 if not isinstance(package, ar_element.Package):
                     raise ValueError(f"'{package_ref}' does not reference a package element")
-            document.append(package)
+                if package.name in package_names:
+                    raise ValueError(f"Package with SHORT-NAME '{package.name}' already exists")
+                package_names.add(package.name)
+                # The package remains part of this workspace, calling the append method would change its parent
+                document.packages.append(package)
         if self.document_root is not None:
             file_path = os.path.join(self.document_root, file_path)
         writer.write_file(document, file_path)
@@ -263,12 +266,13 @@ class Workspace(ar_element.PackageCollection):
                         if len(suffix) > 0:
                             name = matched_element.name + suffix
                             extra_element = element_map.get(name, None)
-                            if extra_element is not None:
+                            if extra_element is not None and extra_element not in element_list:
                                 element_list.append(extra_element)
                 document = ar_document.Document(schema_version=schema_version)
                 new_package = document.make_packages(str(package.ref()))
                 for element in sorted(element_list, key=lambda x: x.name):
-                    new_package.append(element)
+                    # The element remains part of its package, calling the append method would change its parent
+                    new_package.elements.append(element)
                 if self.document_root is not None:
                     file_path = os.path.join(self.document_root, document_name)
                 else:
-- 
2.43.0


From d52d0faecee08668219d5f3e106b0637069a36a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:59 +0000
Subject: [PATCH 18/54] fix: accept a single suffix filter and a document
 without packages

---
 src/autosar/xml/workspace.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/autosar/xml/workspace.py b/src/autosar/xml/workspace.py
index b20b7e9..1ee0a95 100644
--- a/src/autosar/xml/workspace.py
+++ b/src/autosar/xml/workspace.py
@@ -26,7 +26,7 @@ class DocumentConfig:
         self.package_refs: list[str] = []
         if isinstance(package_refs, str):
             self.package_refs.append(package_refs)
-        else:
+        elif package_refs is not None:
             for package_ref in package_refs:
                 assert isinstance(package_ref, str)
                 self.package_refs.append(package_ref)
@@ -46,7 +46,7 @@ class PackageToDocumentMapping:
         self.element_types: type | tuple[type] = element_types
         self.suffix_filters: list[str] = []
         if isinstance(suffix_filters, str):
-            self.element_types.append(suffix_filters)
+            self.suffix_filters.append(suffix_filters)
         else:
             for suffix_filter in suffix_filters:
                 assert isinstance(suffix_filter, str)
-- 
2.43.0


From d3613c64c8e931a114ee52f6fcf4a29e23207467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:23 +0000
Subject: [PATCH 19/54] fix: reject duplicate packages and objects that are not
 packages

---
 src/autosar/xml/element.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index e1be8f7..20ee623 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -2887,7 +2887,7 @@ class Package(CollectableElement):
         Creates new sub-package
         """
         if name in self._collection_map:
-            return ValueError(f"Package with name '{name}' already exists")
+            raise ValueError(f"Package with name '{name}' already exists")
         package = Package(name, **kwargs)
         self._collection_map[name] = package
         self.packages.append(package)
@@ -3034,6 +3034,8 @@ class PackageCollection:
             package.parent = self
             self.packages.append(package)
             self._package_dict[package.name] = package
+        else:
+            raise TypeError(f"Invalid type {str(type(package))}")
 
     def find(self, ref: str | BaseRef) -> Any:
         """
@@ -3063,7 +3065,7 @@ class PackageCollection:
         Creates new package in collection
         """
         if name in self._package_dict:
-            return ValueError(f"Package with name '{name}' already exists")
+            raise ValueError(f"Package with name '{name}' already exists")
         package = Package(name, **kwargs)
         self.append(package)
         return package
-- 
2.43.0


From ce26275273cce56eba7db768e2f504a6e39e19f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:39 +0000
Subject: [PATCH 20/54] fix: creating packages from paths creates all of them
 or none

---
 src/autosar/xml/element.py   | 26 ++++++++++++++++++++++----
 src/autosar/xml/workspace.py |  6 ++++--
 2 files changed, 26 insertions(+), 6 deletions(-)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index 20ee623..8fd0d33 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -2869,19 +2869,30 @@ class Package(CollectableElement):
         """
         Recursively creates sub-packages
         """
-        if ref.startswith('/'):
-            raise ValueError("Reference string can't start with '/'")
+        self.check_make_packages(ref)
         parts = ref.partition('/')
         package = self._collection_map.get(parts[0], None)
         if package is None:
             package = self.create_package(parts[0])
-        elif not isinstance(package, Package):
-            raise KeyError(f"Item with name '{parts[0]}' already exists but isn't a package")
         if len(parts[2]) > 0:
             return package.make_packages(parts[2])
         else:
             return package
 
+    def check_make_packages(self, ref: str) -> None:
+        """
+        Raises an exception if make_packages can't create all packages in ref
+        """
+        package = self
+        while len(ref) > 0:
+            if ref.startswith('/'):
+                raise ValueError("Reference string can't start with '/'")
+            name, _, ref = ref.partition('/')
+            if package is not None:
+                package = package._collection_map.get(name, None)  # pylint: disable=protected-access
+                if package is not None and not isinstance(package, Package):
+                    raise KeyError(f"Item with name '{name}' already exists but isn't a package")
+
     def create_package(self, name: str, **kwargs) -> "Package":
         """
         Creates new sub-package
@@ -3077,10 +3088,17 @@ class PackageCollection:
         If only one argument is given it will return that package (not a list).
         """
         result = []
+        parts_list = []
         for ref in refs:
             if ref.startswith('/'):
                 ref = ref[1:]
             parts = ref.partition('/')
+            package = self._package_dict.get(parts[0], None)
+            if package is None:
+                package = Package(parts[0])
+            package.check_make_packages(parts[2])  # Don't create any packages unless all of them can be created
+            parts_list.append(parts)
+        for parts in parts_list:
             package = self._package_dict.get(parts[0], None)
             if package is None:
                 package = self.create_package(parts[0])
diff --git a/src/autosar/xml/workspace.py b/src/autosar/xml/workspace.py
index 1ee0a95..abdfcbf 100644
--- a/src/autosar/xml/workspace.py
+++ b/src/autosar/xml/workspace.py
@@ -123,9 +123,11 @@ class Workspace(ar_element.PackageCollection):
         Use in conjunction with the add_element and find_element methods.
 
         """
+        packages = self.make_packages(*mapping.values())
+        if isinstance(packages, ar_element.Package):
+            packages = [packages]
         self.package_map.clear()
-        for package_key, package_ref in mapping.items():
-            self.package_map[package_key] = self.make_packages(package_ref)
+        self.package_map.update(zip(mapping, packages))
 
     def add_element(self, package_key: str, element: ar_element.ARObject):
         """
-- 
2.43.0


From eeee947d3f66c20c203c50afb8468c3c4e8a7289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:51 +0000
Subject: [PATCH 21/54] fix: read the introduction and annotations of
 identifiable elements

---
 src/autosar/xml/element.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index 8fd0d33..aaeb994 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -234,13 +234,15 @@ class Identifiable(MultiLanguageReferrable):
                  category: str | None = None,
                  uuid: str | None = None,
                  admin_data: Union["AdminData", None] = None,
+                 introduction: Union["DocumentationBlock", None] = None,
+                 annotations: Union["Annotation", list["Annotation"], None] = None,
                  **kwargs) -> None:
         super().__init__(name, **kwargs)
         self.desc: MultiLanguageOverviewParagraph | None = None
         self.category = None
         self.admin_data = None
-        self.introduction = None
-        self.annotations = None
+        self.introduction: DocumentationBlock | None = None
+        self.annotations: list[Annotation] | None = None
         self.uuid = None
         self.admin_data: Union["AdminData", None] = None
         if desc is not None:
@@ -254,6 +256,14 @@ class Identifiable(MultiLanguageReferrable):
                 raise TypeError(f"Invalid type for argument 'desc': {str(type(desc))}")
         self._assign_optional('category', category, str)
         self._assign_optional('uuid', uuid, str)
+        self._assign_optional_strict('introduction', introduction, DocumentationBlock)
+        if annotations is not None:
+            if isinstance(annotations, Annotation):
+                annotations = [annotations]
+            for annotation in annotations:
+                if not isinstance(annotation, Annotation):
+                    raise TypeError(f"Invalid type for argument 'annotations': {str(type(annotation))}")
+            self.annotations = list(annotations)
 
     def update_ref_parts(self, ref_parts: list[str]):
         """
-- 
2.43.0


From e3d8cefc794e6c3d783f9e0d15fec3a62f7693c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:14 +0000
Subject: [PATCH 22/54] fix: write numbers in scientific format without losing
 digits

---
 src/autosar/xml/writer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/autosar/xml/writer.py b/src/autosar/xml/writer.py
index 46a4adb..a2b0b24 100644
--- a/src/autosar/xml/writer.py
+++ b/src/autosar/xml/writer.py
@@ -183,7 +183,9 @@ class _XMLWriter:
         elif number.value_format == ar_enum.ValueFormat.BINARY:
             return f"0b{number.value:b}"
         elif number.value_format == ar_enum.ValueFormat.SCIENTIFIC:
-            return f"{number.value:e}"
+            text = f"{number.value:e}"
+            # The default precision isn't enough for every number
+            return text if float(text) == number.value else f"{number.value:.16e}"
         else:
             raise NotImplementedError
 
-- 
2.43.0


From 3b2c75223538031055dee8ccdb713a62f83b9fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:59 +0000
Subject: [PATCH 23/54] fix: an element or package that can't be read no longer
 prevents reading the others

---
 src/autosar/xml/reader.py | 57 ++++++++++++++++++++++++++-------------
 1 file changed, 38 insertions(+), 19 deletions(-)

diff --git a/src/autosar/xml/reader.py b/src/autosar/xml/reader.py
index 711b1b8..380d835 100644
--- a/src/autosar/xml/reader.py
+++ b/src/autosar/xml/reader.py
@@ -45,6 +45,9 @@ RteEventElement = Union[ar_element.AsynchronousServerCallReturnsEvent,
                         ar_element.TimingEvent,
                         ar_element.TransformerHardErrorEvent]
 
+# Errors raised by read methods and constructors when they are given invalid content
+ELEMENT_ERRORS = (ArithmeticError, AssertionError, AttributeError, LookupError, RuntimeError, TypeError, ValueError)
+
 # Helper classes
 
 
@@ -551,7 +554,7 @@ class Reader:
         element_map.skip('USED-LANGUAGES')  # Implement later
         element_map.skip('DOC-REVISIONS')  # Implement later
         xml_sdgs = element_map.get('SDGS')
-        if len(xml_sdgs):
+        if xml_sdgs is not None and len(xml_sdgs):
             data['data'] = self._read_admin_data_sdgs(xml_sdgs)
         return ar_element.AdminData(**data)
 
@@ -623,8 +626,13 @@ class Reader:
     def _read_packages(self):
         for xml_node in self.xml_root.findall('./AR-PACKAGES/*'):
             if xml_node.tag == 'AR-PACKAGE':
-                package = self._read_package(xml_node)
-                self.document.append(package)
+                try:
+                    package = self._read_package(xml_node)
+                    self.document.append(package)
+                except ELEMENT_ERRORS as exc:
+                    if self.stop_on_error:
+                        raise
+                    self._report_element_error(xml_node, exc)
 
     def _read_package(self, elem: ElementTree.Element) -> ar_element.Package:
         data = {}
@@ -664,31 +672,42 @@ class Reader:
                     element = read_method(xml_child_elem)
                     assert isinstance(element, ar_element.ARElement)
                     package.append(element)
-                except ar_exception.ParseError as exc:
-                    msg = "Parse error encountered while reading element starting on this line"
-                    message = self._element_error_message(xml_child_elem, msg)
-                    if self.stop_on_error:
-                        raise ar_exception.ParseError(message) from exc
-                    print(message + ":")
-                    print("    " + str(exc))
-                except ar_exception.DuplicateElement as exc:
-                    message = self._element_error_message(xml_child_elem,
-                                                          str(exc))
-                    if self.stop_on_error:
-                        raise ar_exception.DuplicateElement(message) from exc
-                    print(message)
+                except ELEMENT_ERRORS as exc:
+                    self._report_element_error(xml_child_elem, exc)
             else:
                 self._report_unprocessed_element(xml_child_elem)
 
+    def _report_element_error(self, xml_elem: ElementTree.Element, exc: Exception) -> None:
+        """
+        Reports element or package which can't be read
+        """
+        if isinstance(exc, ar_exception.DuplicateElement):
+            message = self._element_error_message(xml_elem, str(exc))
+            if self.stop_on_error:
+                raise ar_exception.DuplicateElement(message) from exc
+            print(message)
+        else:
+            msg = "Parse error encountered while reading element starting on this line"
+            message = self._element_error_message(xml_elem, msg)
+            if self.stop_on_error:
+                raise ar_exception.ParseError(message) from exc
+            print(message + ":")
+            print("    " + (str(exc) if isinstance(exc, ar_exception.ParseError) else repr(exc)))
+
     def _read_sub_packages(self, package: ar_element.Package, xml_packages: ElementTree.Element) -> None:
         """
         Reads AR:AR-PACKAGE.ELEMENTS
         Type: Utility
         """
         for xml_child_package in xml_packages.findall('./AR-PACKAGE'):
-            child_package = self._read_package(xml_child_package)
-            assert isinstance(child_package, ar_element.Package)
-            package.append(child_package)
+            try:
+                child_package = self._read_package(xml_child_package)
+                assert isinstance(child_package, ar_element.Package)
+                package.append(child_package)
+            except ELEMENT_ERRORS as exc:
+                if self.stop_on_error:
+                    raise
+                self._report_element_error(xml_child_package, exc)
 
     # --- Documentation elements
 
-- 
2.43.0


From b59d909d2ffa4663b3c93f1bb3984116fc42641b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:35 +0000
Subject: [PATCH 24/54] fix: loading an invalid config file leaves the
 workspace unchanged

---
 src/autosar/xml/workspace.py | 49 +++++++++++++++++++++++++-----------
 1 file changed, 34 insertions(+), 15 deletions(-)

diff --git a/src/autosar/xml/workspace.py b/src/autosar/xml/workspace.py
index abdfcbf..86986f4 100644
--- a/src/autosar/xml/workspace.py
+++ b/src/autosar/xml/workspace.py
@@ -208,21 +208,40 @@ class Workspace(ar_element.PackageCollection):
         """
         with open(file_path, "rb") as fp:  # pylint: disable=C0103
             config = tomllib.load(fp)
-            namespace = config.get("namespace", None)
-            if namespace is not None:
-                for name, ns_config in namespace.items():
-                    self._create_namespace_from_config(name, ns_config)
-            document = config.get("document", None)
-            if document is not None:
-                for name, doc_config in document.items():
-                    self._create_document_from_config(name, doc_config)
-            document_mapping = config.get("document_mapping", None)
-            if document_mapping is not None:
-                for mapping in document_mapping.values():
-                    self._create_document_mapping_from_config(mapping)
-            behavior_settings = config.get("behavior", None)
-            if behavior_settings is not None:
-                self.behavior_settings.update(behavior_settings)
+        namespaces = dict(self.namespaces)
+        documents = list(self.documents)
+        document_mappings = list(self.document_mappings)
+        behavior_settings = dict(vars(self.behavior_settings))
+        try:
+            self._apply_config(config)
+        except BaseException:
+            # Undo what was applied before the invalid content was found
+            self.namespaces.clear()
+            self.namespaces.update(namespaces)
+            self.documents[:] = documents
+            self.document_mappings[:] = document_mappings
+            vars(self.behavior_settings).update(behavior_settings)
+            raise
+
+    def _apply_config(self, config: dict) -> None:
+        """
+        Applies content of config file
+        """
+        namespace = config.get("namespace", None)
+        if namespace is not None:
+            for name, ns_config in namespace.items():
+                self._create_namespace_from_config(name, ns_config)
+        document = config.get("document", None)
+        if document is not None:
+            for name, doc_config in document.items():
+                self._create_document_from_config(name, doc_config)
+        document_mapping = config.get("document_mapping", None)
+        if document_mapping is not None:
+            for mapping in document_mapping.values():
+                self._create_document_mapping_from_config(mapping)
+        behavior_settings = config.get("behavior", None)
+        if behavior_settings is not None:
+            self.behavior_settings.update(behavior_settings)
 
     def _write_document_from_config(self,
                                     writer: Writer,
-- 
2.43.0


From d41f70673d030c39f05f1fae81886c1f2ec8e748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:40 +0000
Subject: [PATCH 25/54] fix: reject config entries that don't name an element
 type or behavior setting

---
 src/autosar/xml/element.py   | 2 +-
 src/autosar/xml/workspace.py | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index aaeb994..beb216e 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -2999,7 +2999,7 @@ class BehaviorSettings:
         """
         Updates a single value with error check
         """
-        if hasattr(self, name):
+        if name in vars(self):
             if not isinstance(value, str):
                 raise TypeError(f"value: Expected string type. Got {str(type(value))}")
             setattr(self, name, value)
diff --git a/src/autosar/xml/workspace.py b/src/autosar/xml/workspace.py
index 86986f4..76b03ac 100644
--- a/src/autosar/xml/workspace.py
+++ b/src/autosar/xml/workspace.py
@@ -336,10 +336,10 @@ class Workspace(ar_element.PackageCollection):
         else:
             raise ValueError(f"element_types: Invalid type '{str(type(value))}'")
         for elem_name in elem_names:
-            try:
-                element_types.append(getattr(ar_element, elem_name))
-            except AttributeError as exc:
-                raise ValueError(f"element_types: '{elem_name}' is not a valid element name") from exc
+            element_type = getattr(ar_element, elem_name, None)
+            if not isinstance(element_type, type):
+                raise ValueError(f"element_types: '{elem_name}' is not a valid element name")
+            element_types.append(element_type)
         if len(element_types) == 0:
             raise ValueError("element_types: At least one element type must be given")
         value = mapping.get("suffix_filters")
-- 
2.43.0


From 9ba0f34c9730d60ba9cf28861aaf3e7be44f1783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:40 +0000
Subject: [PATCH 26/54] fix: names made unique are unique for every base name
 and list

---
 src/autosar/xml/element.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index beb216e..51e2209 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -323,9 +323,10 @@ def make_unique_name_in_list(elements: list[Referrable], base_name: str):
     has_index = False
     highest_index = 0
     unpatched_elem: Referrable | None = None
-    expr = re.compile(base_name + r'_(\d+)')
+    expr = re.compile(re.escape(base_name) + r'_(\d+)')
+    names = {element.name for element in elements}
     for element in elements:
-        result = expr.match(element.name)
+        result = expr.fullmatch(element.name)
         if result is not None:
             has_index = True
             index = int(result.group(1))
@@ -333,7 +334,11 @@ def make_unique_name_in_list(elements: list[Referrable], base_name: str):
         elif element.name == base_name:
             unpatched_elem = element
     if unpatched_elem is not None:
-        unpatched_elem.name = '_'.join([unpatched_elem.name, '0'])
+        patched_name = '_'.join([base_name, '0'])
+        if patched_name in names:
+            highest_index += 1
+            patched_name = '_'.join([base_name, str(highest_index)])
+        unpatched_elem.name = patched_name
     if has_index or unpatched_elem is not None:
         return '_'.join([base_name, str(highest_index + 1)])
     else:
-- 
2.43.0


From 408cb2a1753b4c963bbac04334e564d1fe1110a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:54 +0000
Subject: [PATCH 27/54] fix: creating an event that is rejected doesn't rename
 existing events

---
 src/autosar/xml/element.py | 52 ++++++++++++++++----------------------
 1 file changed, 22 insertions(+), 30 deletions(-)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index 51e2209..6f1a904 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -8092,14 +8092,14 @@ class SwcInternalBehavior(InternalBehavior):
                 return runnable
         return None
 
-    def _make_unique_event_name(self, event_name: str) -> str:
+    def _append_unique_event(self, event: RteEvent) -> None:
         """
-        Checks if event_name is unique in internal event list.
-        If not, then it automatically starts to add an integer-based name suffix ("_0", "_1" etc.).
+        Adds event to internal list of events.
+        If its name isn't unique then it automatically starts to add an integer-based name suffix ("_0", "_1" etc.).
         Calling this function could potentially invalidate existing event references.
-        Note: Not yet implemented
         """
-        return make_unique_name_in_list(self.events, event_name)
+        event.name = make_unique_name_in_list(self.events, event.name)
+        self.append_event(event)
 
     def create_background_event(self,
                                 runnable_name: str,
@@ -8123,9 +8123,8 @@ class SwcInternalBehavior(InternalBehavior):
                       " background_event_prefix is not set in behavior settings"
                 raise RuntimeError(msg)
         assert isinstance(event_name, str)
-        unique_event_name = self._make_unique_event_name(event_name)
-        event = BackgroundEvent(unique_event_name, runnable.ref(), **kwargs)
-        self.append_event(event)
+        event = BackgroundEvent(event_name, runnable.ref(), **kwargs)
+        self._append_unique_event(event)
         return event
 
     def create_data_receive_error_event(self,
@@ -8170,13 +8169,12 @@ class SwcInternalBehavior(InternalBehavior):
                       " data_receive_error_event_prefix is not set in behavior settings"
                 raise RuntimeError(msg)
         assert isinstance(event_name, str)
-        unique_event_name = self._make_unique_event_name(event_name)
-        event = DataReceiveErrorEvent.make(unique_event_name,
+        event = DataReceiveErrorEvent.make(event_name,
                                            runnable.ref(),
                                            context_port.ref(),
                                            target_data_element.ref(),
                                            **kwargs)
-        self.append_event(event)
+        self._append_unique_event(event)
         return event
 
     def create_data_received_event(self,
@@ -8221,13 +8219,12 @@ class SwcInternalBehavior(InternalBehavior):
                       " data_receive_event_prefix is not set in behavior settings"
                 raise RuntimeError(msg)
         assert isinstance(event_name, str)
-        unique_event_name = self._make_unique_event_name(event_name)
-        event = DataReceivedEvent.make(unique_event_name,
+        event = DataReceivedEvent.make(event_name,
                                        runnable.ref(),
                                        context_port.ref(),
                                        target_data_element.ref(),
                                        **kwargs)
-        self.append_event(event)
+        self._append_unique_event(event)
         return event
 
     def create_data_send_completed_event(self,
@@ -8288,9 +8285,8 @@ class SwcInternalBehavior(InternalBehavior):
                       " init_event_prefix is not set in behavior settings"
                 raise RuntimeError(msg)
         assert isinstance(event_name, str)
-        unique_event_name = self._make_unique_event_name(event_name)
-        event = InitEvent(unique_event_name, runnable.ref(), **kwargs)
-        self.append_event(event)
+        event = InitEvent(event_name, runnable.ref(), **kwargs)
+        self._append_unique_event(event)
         return event
 
     def create_operation_invoked_event(self,
@@ -8332,13 +8328,12 @@ class SwcInternalBehavior(InternalBehavior):
                       " operation_invoked_event_prefix is not set in behavior settings"
                 raise RuntimeError(msg)
         assert isinstance(event_name, str)
-        unique_event_name = self._make_unique_event_name(event_name)
-        event = OperationInvokedEvent.make(unique_event_name,
+        event = OperationInvokedEvent.make(event_name,
                                            runnable.ref(),
                                            context_port.ref(),
                                            target_provided_operation.ref(),
                                            **kwargs)
-        self.append_event(event)
+        self._append_unique_event(event)
         return event
 
     def create_swc_mode_manager_error_event(self,
@@ -8375,13 +8370,12 @@ class SwcInternalBehavior(InternalBehavior):
                       " swc_mode_manager_error_event_prefix is not set in behavior settings"
                 raise RuntimeError(msg)
         assert isinstance(event_name, str)
-        unique_event_name = self._make_unique_event_name(event_name)
-        event = SwcModeManagerErrorEvent.make(unique_event_name,
+        event = SwcModeManagerErrorEvent.make(event_name,
                                               runnable.ref(),
                                               context_port.ref(),
                                               context_mode_declaration_group.ref(),
                                               **kwargs)
-        self.append_event(event)
+        self._append_unique_event(event)
         return event
 
     def create_swc_mode_mode_switch_event(self,
@@ -8414,14 +8408,13 @@ class SwcInternalBehavior(InternalBehavior):
                       " swc_mode_switch_event_prefix is not set in behavior settings"
                 raise RuntimeError(msg)
         assert isinstance(event_name, str)
-        unique_event_name = self._make_unique_event_name(event_name)
         expected_formats = "Expected formats: '<PortName>', '<PortName>/<ModeDeclarationName>', tuple[str, str]"
         if isinstance(mode_ref, str):
             if len(mode_ref) == 0:
                 raise ValueError("mode_ref: Invalid argument. " + expected_formats)
             context_port, context_mode_declaration_group, target_mode_declaration = (
                 self._get_swc_mode_switch_event_args(workspace, swc, mode_ref))
-            event = SwcModeSwitchEvent.make(unique_event_name,
+            event = SwcModeSwitchEvent.make(event_name,
                                             runnable.ref(),
                                             activation,
                                             context_port.ref(),
@@ -8443,14 +8436,14 @@ class SwcInternalBehavior(InternalBehavior):
                                                                      target_mode_declaration.ref()))
                 else:
                     raise TypeError(f"mode_ref: Invalid type '{str(type(ref))}'. " + expected_formats)
-            event = SwcModeSwitchEvent(unique_event_name,
+            event = SwcModeSwitchEvent(event_name,
                                        runnable.ref(),
                                        activation,
                                        (instance_refs[0], instance_refs[1]),
                                        **kwargs)
         else:
             raise TypeError(f"mode_ref: Unsupported type '{str(type(mode_ref))}'")
-        self.append_event(event)
+        self._append_unique_event(event)
         return event
 
     def create_timing_event(self,
@@ -8476,9 +8469,8 @@ class SwcInternalBehavior(InternalBehavior):
                       " timing_event_prefix is not set in behavior settings"
                 raise RuntimeError(msg)
         assert isinstance(event_name, str)
-        unique_event_name = self._make_unique_event_name(event_name)
-        event = TimingEvent(unique_event_name, runnable.ref(), period, offset, **kwargs)
-        self.append_event(event)
+        event = TimingEvent(event_name, runnable.ref(), period, offset, **kwargs)
+        self._append_unique_event(event)
         return event
 
     def _get_swc_mode_switch_event_args(self,
-- 
2.43.0


From e3f1bc0431c7c7a08c969600ce76af390c9c00f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:06 +0000
Subject: [PATCH 28/54] fix: access points appended to a runnable keep unique
 names

---
 src/autosar/xml/element.py | 33 ++++++++++++++++++++-------------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index 6f1a904..aa44671 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -6975,6 +6975,13 @@ class RunnableEntity(ExecutableEntity):
         else:
             raise TypeError(f"argument: Expected type RunnableEntityArgument, got '{str(type(argument))}'")
 
+    def _make_name_unique(self, elements: list[Referrable], new_element: Referrable) -> None:
+        """
+        Changes name of new_element in case that name is already used in elements
+        """
+        if any(element.name == new_element.name for element in elements):
+            new_element.name = make_unique_name_in_list(elements, new_element.name)
+
     def append_async_server_call_result_point(self,
                                               result_point: AsynchronousServerCallResultPoint
                                               ) -> None:
@@ -6982,7 +6989,7 @@ class RunnableEntity(ExecutableEntity):
         A server call result point allows a runnable to fetch the result of an asynchronous server call.
         """
         if isinstance(result_point, AsynchronousServerCallResultPoint):
-            make_unique_name_in_list(self.async_server_call_result_point, result_point.name)
+            self._make_name_unique(self.async_server_call_result_point, result_point)
             self.async_server_call_result_point.append(result_point)
             result_point.parent = self
         else:
@@ -6994,7 +7001,7 @@ class RunnableEntity(ExecutableEntity):
         Implicit read access to data element of a sender-receiver port or nv-data port.
         """
         if isinstance(element, VariableAccess):
-            make_unique_name_in_list(self.data_read_access, element.name)
+            self._make_name_unique(self.data_read_access, element)
             self.data_read_access.append(element)
             element.parent = self
         else:
@@ -7006,7 +7013,7 @@ class RunnableEntity(ExecutableEntity):
         The result is passed back to the application by means of an argument in the function signature.
         """
         if isinstance(element, VariableAccess):
-            make_unique_name_in_list(self.data_receive_point_by_argument, element.name)
+            self._make_name_unique(self.data_receive_point_by_argument, element)
             self.data_receive_point_by_argument.append(element)
             element.parent = self
         else:
@@ -7018,7 +7025,7 @@ class RunnableEntity(ExecutableEntity):
         The result is passed back to the application by means of the return value.
         """
         if isinstance(element, VariableAccess):
-            make_unique_name_in_list(self.data_receive_point_by_value, element.name)
+            self._make_name_unique(self.data_receive_point_by_value, element)
             self.data_receive_point_by_value.append(element)
             element.parent = self
         else:
@@ -7029,7 +7036,7 @@ class RunnableEntity(ExecutableEntity):
         Explicit write access to data element of a sender-receiver port or nv-data.
         """
         if isinstance(element, VariableAccess):
-            make_unique_name_in_list(self.data_send_point, element.name)
+            self._make_name_unique(self.data_send_point, element)
             self.data_send_point.append(element)
             element.parent = self
         else:
@@ -7040,7 +7047,7 @@ class RunnableEntity(ExecutableEntity):
         Implicit write access to data element of a sender-receiver port or nv-data port.
         """
         if isinstance(element, VariableAccess):
-            make_unique_name_in_list(self.data_write_access, element.name)
+            self._make_name_unique(self.data_write_access, element)
             self.data_write_access.append(element)
             element.parent = self
         else:
@@ -7062,7 +7069,7 @@ class RunnableEntity(ExecutableEntity):
         Internal triggering point
         """
         if isinstance(element, InternalTriggeringPoint):
-            make_unique_name_in_list(self.internal_triggering_point, element.name)
+            self._make_name_unique(self.internal_triggering_point, element)
             self.internal_triggering_point.append(element)
             element.parent = self
         else:
@@ -7084,7 +7091,7 @@ class RunnableEntity(ExecutableEntity):
         Mode switch point
         """
         if isinstance(element, ModeSwitchPoint):
-            make_unique_name_in_list(self.mode_switch_point, element.name)
+            self._make_name_unique(self.mode_switch_point, element)
             self.mode_switch_point.append(element)
             element.parent = self
         else:
@@ -7095,7 +7102,7 @@ class RunnableEntity(ExecutableEntity):
         Read access to parameter which may either be local or within a PortPrototype.
         """
         if isinstance(element, ParameterAccess):
-            make_unique_name_in_list(self.parameter_access, element.name)
+            self._make_name_unique(self.parameter_access, element)
             self.parameter_access.append(element)
             element.parent = self
         else:
@@ -7106,7 +7113,7 @@ class RunnableEntity(ExecutableEntity):
         Read access to a local variable in the role of ImplicitInterRunnableVariable or ExplicitInterRunnableVariable.
         """
         if isinstance(element, VariableAccess):
-            make_unique_name_in_list(self.read_local_variable, element.name)
+            self._make_name_unique(self.read_local_variable, element)
             self.read_local_variable.append(element)
             element.parent = self
         else:
@@ -7117,7 +7124,7 @@ class RunnableEntity(ExecutableEntity):
         Write access to a local varaible in the role of ImplicitInterRunnableVariable or ExplicitInterRunnableVariable.
         """
         if isinstance(element, VariableAccess):
-            make_unique_name_in_list(self.write_local_variable, element.name)
+            self._make_name_unique(self.write_local_variable, element)
             self.write_local_variable.append(element)
             element.parent = self
         else:
@@ -7128,7 +7135,7 @@ class RunnableEntity(ExecutableEntity):
         Access to call a server operation of a client-server port.
         """
         if isinstance(element, ServerCallPoint):
-            make_unique_name_in_list(self.server_call_point, element.name)
+            self._make_name_unique(self.server_call_point, element)
             self.server_call_point.append(element)
             element.parent = self
         else:
@@ -7140,7 +7147,7 @@ class RunnableEntity(ExecutableEntity):
         WaitPoint associated with the RunnableEntity
         """
         if isinstance(element, WaitPoint):
-            make_unique_name_in_list(self.wait_point, element.name)
+            self._make_name_unique(self.wait_point, element)
             self.wait_point.append(element)
             element.parent = self
         else:
-- 
2.43.0


From 1dac83f25ad67b178823a02ecd19f1df2432dbb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:07 +0000
Subject: [PATCH 29/54] fix: a rejected port access call adds nothing to the
 runnable

---
 src/autosar/xml/element.py | 68 ++++++++++++++++++++++----------------
 1 file changed, 40 insertions(+), 28 deletions(-)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index aa44671..a384d59 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -3,7 +3,7 @@ Classes related to AUTOSAR XML Elements
 """
 
 import re
-from collections.abc import Iterable, Iterator
+from collections.abc import Callable, Iterable, Iterator
 from dataclasses import dataclass
 from typing import Any, Union
 from collections import OrderedDict
@@ -6700,9 +6700,12 @@ class RunnableEntity(ExecutableEntity):
         settings = workspace.get_valid_behavior_settings()
         if isinstance(elements, (str, tuple)):
             elements = [elements]
+        # All access points are created before the first one is added.
+        new_access_points: list[tuple[Callable[[Any], None], Any]] = []
         for elem in elements:
             if isinstance(elem, tuple):
                 text, access_point_args = elem
+                access_point_args = dict(access_point_args) if access_point_args is not None else None
             else:
                 text, access_point_args = elem, None
             options = PortAccessOptions()
@@ -6718,7 +6721,10 @@ class RunnableEntity(ExecutableEntity):
             if port is None:
                 raise ValueError(f"Invalid port name: {port_name}")
             port_interface = workspace.get_port_interface(port.port_interface_ref)
-            self._create_port_access_internal(port, port_interface, ref[2], settings, options, access_point_args)
+            new_access_points.append(self._create_port_access_internal(port, port_interface, ref[2], settings,
+                                                                       options, access_point_args))
+        for append_method, access_point in new_access_points:
+            append_method(access_point)
 
     def _parse_port_access_prefix(self, text: str, options: PortAccessOptions) -> None:
         """
@@ -6751,21 +6757,23 @@ class RunnableEntity(ExecutableEntity):
                                      element_name: str,
                                      settings: BehaviorSettings,
                                      options: PortAccessOptions,
-                                     access_point_args: dict[str, Any] | None) -> None:
+                                     access_point_args: dict[str, Any] | None
+                                     ) -> tuple[Callable[[Any], None], Any]:
         """
-        Helper function for creating port access
+        Helper function for creating port access.
+        Returns the access point and the method that adds it to this runnable.
         """
         if isinstance(port_interface, (SenderReceiverInterface, NvDataInterface)):
-            self._create_data_based_port_access(port, port_interface, element_name,
-                                                settings, options.access, options.result, access_point_args)
+            return self._create_data_based_port_access(port, port_interface, element_name,
+                                                       settings, options.access, options.result, access_point_args)
         elif isinstance(port_interface, ModeSwitchInterface):
-            self._create_mode_based_port_access(port, port_interface, element_name,
-                                                settings, options.mode, access_point_args)
+            return self._create_mode_based_port_access(port, port_interface, element_name,
+                                                       settings, options.mode, access_point_args)
         elif isinstance(port_interface, ParameterInterface):
-            self._create_parameter_port_access(port, port_interface, element_name, settings, access_point_args)
+            return self._create_parameter_port_access(port, port_interface, element_name, settings, access_point_args)
         elif isinstance(port_interface, ClientServerInterface):
-            self._create_client_server_port_access(port, port_interface, element_name,
-                                                   settings, options.call, access_point_args)
+            return self._create_client_server_port_access(port, port_interface, element_name,
+                                                          settings, options.call, access_point_args)
         else:
             raise NotImplementedError(str(type(port_interface)))
 
@@ -6776,7 +6784,8 @@ class RunnableEntity(ExecutableEntity):
                                        settings: BehaviorSettings,
                                        access_type: ar_enum.PortAccess,
                                        result_type: ar_enum.ReadResult,
-                                       access_point_args: dict[str, Any] | None) -> None:
+                                       access_point_args: dict[str, Any] | None
+                                       ) -> tuple[Callable[[Any], None], Any]:
         """
         Automatically create port access for SenderReceiverInterface or NvDataInterface
         """
@@ -6801,29 +6810,28 @@ class RunnableEntity(ExecutableEntity):
                     name = "_".join([settings.get_value("data_read_access_prefix"), port.name, data_element.name])
                 variable_access = VariableAccess.make_from_port_with_args(name, port.ref(), data_element.ref(),
                                                                           access_point_args)
-                self.append_data_read_access(variable_access)
+                return self.append_data_read_access, variable_access
             else:
                 if name is None:
                     name = "_".join([settings.get_value("data_receive_point_prefix"), port.name, data_element.name])
                 variable_access = VariableAccess.make_from_port_with_args(name, port.ref(), data_element.ref(),
                                                                           access_point_args)
                 if result_type == ar_enum.ReadResult.BY_VALUE:
-                    self.append_data_receive_point_by_value(variable_access)
-                else:
-                    self.append_data_receive_point_by_argument(variable_access)
+                    return self.append_data_receive_point_by_value, variable_access
+                return self.append_data_receive_point_by_argument, variable_access
         elif isinstance(port, ProvidePortPrototype):
             if access_type == ar_enum.PortAccess.IMPLICIT:
                 if name is None:
                     name = "_".join([settings.get_value("data_write_access_prefix"), port.name, data_element.name])
                 variable_access = VariableAccess.make_from_port_with_args(name, port.ref(), data_element.ref(),
                                                                           access_point_args)
-                self.append_data_write_access(variable_access)
+                return self.append_data_write_access, variable_access
             else:
                 if name is None:
                     name = "_".join([settings.get_value("data_send_point_prefix"), port.name, data_element.name])
                 variable_access = VariableAccess.make_from_port_with_args(name, port.ref(), data_element.ref(),
                                                                           access_point_args)
-                self.append_data_send_point(variable_access)
+                return self.append_data_send_point, variable_access
         else:
             raise TypeError(f"Type not supported: {str(type(port))}")
 
@@ -6833,7 +6841,8 @@ class RunnableEntity(ExecutableEntity):
                                        mode_group_name: str,
                                        settings: BehaviorSettings,
                                        access_type: ar_enum.ModeAccess | None,
-                                       access_point_args: dict[str, Any] | None) -> None:
+                                       access_point_args: dict[str, Any] | None
+                                       ) -> tuple[Callable[[Any], None], Any]:
         """
         Creates port access for mode-based interfaces.
 
@@ -6880,23 +6889,25 @@ class RunnableEntity(ExecutableEntity):
                     switch_point = ModeSwitchPoint(name, mode_group_iref, **access_point_args)
                 else:
                     switch_point = ModeSwitchPoint(name, mode_group_iref)
-                self.append_mode_switch_point(switch_point)
-        if access_point:
-            self.append_mode_access_point(access_point)
+                return self.append_mode_switch_point, switch_point
+        if access_point is None:
+            raise TypeError(f"Port access type not supported: {str(type(port))}")
+        return self.append_mode_access_point, access_point
 
     def _create_parameter_port_access(self,
                                       port: PortPrototypeElement,
                                       port_interface: ParameterInterface,
                                       parameter_name: str,
                                       settings: BehaviorSettings,
-                                      access_point_args: dict[str, Any] | None) -> None:
+                                      access_point_args: dict[str, Any] | None
+                                      ) -> tuple[Callable[[Any], None], Any]:
         """
         Creates port access for parameter interface
         """
         target_data = None
         if len(parameter_name) == 0:
             if len(port_interface.parameters) == 1:
-                target_data = port_interface.parameter[0]
+                target_data = port_interface.parameters[0]
         else:
             for element in port_interface.parameters:
                 if element.name == parameter_name:
@@ -6920,7 +6931,7 @@ class RunnableEntity(ExecutableEntity):
                                                **access_point_args)
         else:
             parameter_access = ParameterAccess(name, AutosarParameterRef(autosar_parameter=parameter_iref))
-        self.append_parameter_access(parameter_access)
+        return self.append_parameter_access, parameter_access
 
     def _create_client_server_port_access(self,
                                           port: PortPrototypeElement,
@@ -6928,7 +6939,8 @@ class RunnableEntity(ExecutableEntity):
                                           operation_name: str,
                                           settings: BehaviorSettings,
                                           call_type: ar_enum.CallPoint,
-                                          access_point_args: dict[str, Any] | None) -> None:
+                                          access_point_args: dict[str, Any] | None
+                                          ) -> tuple[Callable[[Any], None], Any]:
         """
         Creates port access for client-server interfaces
         """
@@ -6963,8 +6975,8 @@ class RunnableEntity(ExecutableEntity):
                     access_point = AsynchronousServerCallPoint(name, operation_iref)
                 else:
                     access_point = SynchronousServerCallPoint(name, operation=operation_iref)
-            if access_point:
-                self.append_server_call_point(access_point)
+            return self.append_server_call_point, access_point
+        raise TypeError(f"Type not supported: {str(type(port))}")
 
     def append_argument(self, argument: RunnableEntityArgument) -> None:
         """
-- 
2.43.0


From 4f7acab10898ecab3444eb4ea8f6504a11a146c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:11 +0000
Subject: [PATCH 30/54] fix: mode access points appended to a runnable keep
 unique names

---
 src/autosar/xml/element.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index a384d59..58db076 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -7092,9 +7092,11 @@ class RunnableEntity(ExecutableEntity):
         Mode access point
         """
         if isinstance(element, ModeAccessPoint):
-            self.mode_access_point.append(element)
             if element.ident is not None:
+                idents = [point.ident for point in self.mode_access_point if point.ident is not None]
+                self._make_name_unique(idents, element.ident)
                 element.ident.parent = self
+            self.mode_access_point.append(element)
         else:
             raise TypeError(f"element: Expected type ModeAccessPoint, got '{str(type(element))}'")
 
-- 
2.43.0


From d7e3ba86c0a7586cd9a1d153e55194fcef60dae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:15 +0000
Subject: [PATCH 31/54] fix: rejected port api options and duplicate runnables
 leave the behavior unchanged

---
 src/autosar/xml/element.py | 33 ++++++++++++++++++---------------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index 58db076..8b925e6 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -8066,6 +8066,8 @@ class SwcInternalBehavior(InternalBehavior):
 
         #convenience-method
         """
+        if self.find_runnable(name) is not None:
+            raise ValueError(f"A runnable with name '{name}' already exists")
         if isinstance(symbol, str) and len(symbol) == 0:
             symbol = name
         if can_enter_leave is not None:
@@ -8555,21 +8557,22 @@ class SwcInternalBehavior(InternalBehavior):
                 ports_to_process[name] = False
         else:
             raise TypeError(f"port_name: Expected type string or list of string. Got {str(type(port_name))}")
-        if len(ports_to_process):
-            for port in sorted(swc.ports, key=lambda x: x.name.lower()):
-                if port.name in ports_to_process:
-                    ports_to_process[port.name] = True
-                    option = self._create_port_api_option_internal(port,
-                                                                   enable_take_address,
-                                                                   indirect_api,
-                                                                   error_handling,
-                                                                   port_arg_values,
-                                                                   supported_features,
-                                                                   transformer_status_forwarding)
-                    self.append_port_api_option(option)
-            for key, value in ports_to_process.items():
-                if not value:
-                    raise ValueError(f"port_name: '{key}' is not a valid port name in SWC '{swc.name}'")
+        options: list[PortApiOption] = []
+        for port in sorted(swc.ports, key=lambda x: x.name.lower()):
+            if port.name in ports_to_process:
+                ports_to_process[port.name] = True
+                options.append(self._create_port_api_option_internal(port,
+                                                                     enable_take_address,
+                                                                     indirect_api,
+                                                                     error_handling,
+                                                                     port_arg_values,
+                                                                     supported_features,
+                                                                     transformer_status_forwarding))
+        for key, value in ports_to_process.items():
+            if not value:
+                raise ValueError(f"port_name: '{key}' is not a valid port name in SWC '{swc.name}'")
+        for option in options:
+            self.append_port_api_option(option)
 
     def _create_port_api_option_internal(self,
                                          port: PortPrototypeElement,
-- 
2.43.0


From d7e0eec7b6f7b2dd374f79f0edb34554b36643d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:45 +0000
Subject: [PATCH 32/54] fix: set the parent of elements given to constructors
 and append methods

Data type elements, operation arguments, mode groups and internal behaviors
passed to constructors or append methods had no parent, so that their ref
method returned None although they were part of a package.
---
 src/autosar/xml/element.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index 8b925e6..1353124 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -1941,6 +1941,7 @@ class ImplementationDataTypeElement(Identifiable):
         """
         if isinstance(elem, ImplementationDataTypeElement):
             self.sub_elements.append(elem)
+            elem.parent = self
         else:
             raise TypeError("'elem' must be of type ImplementationDataTypeElement")
 
@@ -1997,6 +1998,7 @@ class ImplementationDataType(AutosarDataType):
         """
         if isinstance(elem, ImplementationDataTypeElement):
             self.sub_elements.append(elem)
+            elem.parent = self
         else:
             raise TypeError("'elem' must be of type ImplementationDataTypeElement")
 
@@ -2239,6 +2241,8 @@ class ApplicationArrayDataType(ApplicationCompositeDataType):
         self.element: ApplicationArrayElement | None = None                 # .ELEMENT
         self._assign_optional('dynamic_array_size_profile', dynamic_array_size_profile, str)
         self._assign_optional_strict('element', element, ApplicationArrayElement)
+        if self.element is not None:
+            self.element.parent = self
 
     def ref(self) -> ApplicationDataTypeRef | None:
         """
@@ -2300,6 +2304,7 @@ class ApplicationRecordDataType(ApplicationCompositeDataType):
         """
         if isinstance(element, ApplicationRecordElement):
             self.elements.append(element)
+            element.parent = self
         else:
             raise TypeError("'element' must be of type ApplicationRecordElement")
 
@@ -3300,7 +3305,7 @@ class ModeDeclarationGroup(ARElement):
         Appends mode transition to internal list of transitions
         """
         if isinstance(mode_transition, ModeTransition):
-            mode_transition.parent = mode_transition
+            mode_transition.parent = self
             self.mode_transitions.append(mode_transition)
         else:
             msg = f"mode_transition: Invalid type '{str(type(mode_transition))}'"
@@ -3705,6 +3710,7 @@ class ClientServerOperation(Identifiable):
         """
         if isinstance(argument, ArgumentDataPrototype):
             self.arguments.append(argument)
+            argument.parent = self
         else:
             msg = f"argument: Invalid type '{str(type(argument))}'"
             raise TypeError(msg + ". Expected 'ArgumentDataPrototype'")
@@ -3896,6 +3902,8 @@ class ModeSwitchInterface(PortInterface):
         self.mode_group: ModeDeclarationGroupPrototype | None = None
 
         self._assign_optional_strict("mode_group", mode_group, ModeDeclarationGroupPrototype)
+        if self.mode_group is not None:
+            self.mode_group.parent = self
 
     def ref(self) -> PortInterfaceRef | None:
         """
@@ -5184,6 +5192,8 @@ class AtomicSoftwareComponentType(SwComponentType):
         self._internal_behavior: SwcInternalBehavior | None = None
         self.symbol_props = None  # AR:SYMBOL-PROPS
         self._assign_optional_strict("_internal_behavior", internal_behavior, SwcInternalBehavior)
+        if internal_behavior is not None:
+            internal_behavior.parent = self
         self._assign_optional_strict("symbol_props", symbol_props, SymbolProps)
 
     @property
-- 
2.43.0


From 47a1d2bf148c7a47e68c1e7ce1af0131dfd718f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:04 +0000
Subject: [PATCH 33/54] fix: a rejected extend call adds nothing to an
 application record

---
 src/autosar/xml/element.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index 1353124..c0d7060 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -2312,7 +2312,11 @@ class ApplicationRecordDataType(ApplicationCompositeDataType):
         """
         Extends elements to elements list
         """
+        elements = list(elements)
         for element in elements:  # We want to type-check each element before adding to internal list
+            if not isinstance(element, ApplicationRecordElement):
+                raise TypeError("'element' must be of type ApplicationRecordElement")
+        for element in elements:
             self.append(element)
 
     def ref(self) -> ApplicationDataTypeRef | None:
-- 
2.43.0


From 0bbfae572170bfdb332e51c9c879a4be091bdc56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:37 +0000
Subject: [PATCH 34/54] fix: a created port keeps the com-spec object it is
 given

---
 src/autosar/xml/element.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index c0d7060..c494f7c 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -5001,8 +5001,6 @@ class SwComponentType(ARElement, Searchable):
                 if len(unprocessed):
                     processed.extend(ProvidePortComSpec.make_from_port_interface(port_interface, **unprocessed))
                 com_spec = processed
-            else:
-                com_spec = None  # Clear when not implemented
         port = ProvidePortPrototype(name, port_interface.ref(), com_spec, **kwargs)
         self.append_port(port)
         return port
@@ -5050,8 +5048,6 @@ class SwComponentType(ARElement, Searchable):
                 if len(unprocessed):
                     processed.extend(RequirePortComSpec.make_from_port_interface(port_interface, **unprocessed))
                 com_spec = processed
-            else:
-                com_spec = None  # Clear when not implemented
         port = RequirePortPrototype(name, port_interface.ref(), com_spec, allow_unconnected, **kwargs)
         self.append_port(port)
         return port
-- 
2.43.0


From 4093fc32544f43367405296cfe166a5505047f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:37 +0000
Subject: [PATCH 35/54] fix: set the parent of created delegation and
 pass-through connectors

---
 src/autosar/xml/element.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index c494f7c..990ae6b 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -5580,7 +5580,7 @@ class CompositionSwComponentType(SwComponentType, Searchable):
         connector = DelegationSwConnector(connector_name, inner_port_iref, outer_port.ref())
         if self.find(connector_name) is not None:
             raise ValueError(f"{self.name}: Connector with name '{connector_name}' already exists")
-        self.connectors.append(connector)
+        self.append_connector(connector)
         return connector
 
     def _create_pass_through_connector(self,
@@ -5590,7 +5590,7 @@ class CompositionSwComponentType(SwComponentType, Searchable):
         connector = PassThroughSwConnector(connector_name, provide_port.ref(), require_port.ref())
         if self.find(connector_name) is not None:
             raise ValueError(f"{self.name}: Connector with name '{connector_name}' already exists")
-        self.connectors.append(connector)
+        self.append_connector(connector)
         return connector
 
 
-- 
2.43.0


From 60cf39bf578d307688f86ef287a4f3631f199c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:37 +0000
Subject: [PATCH 36/54] fix: pass-through connectors take each port in its own
 role

---
 src/autosar/xml/element.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index 990ae6b..00a149e 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -5487,6 +5487,10 @@ class CompositionSwComponentType(SwComponentType, Searchable):
         port2, component2 = self._analyze_port_ref(workspace, port_ref2)
 
         if component1 is None and component2 is None:
+            if isinstance(port1, RequirePortPrototype) or isinstance(port2, ProvidePortPrototype):
+                port1, port2 = port2, port1
+            if isinstance(port1, RequirePortPrototype) or isinstance(port2, ProvidePortPrototype):
+                raise ValueError('a pass-through connector needs a provide-port and a require-port')
             return self._create_pass_through_connector(port1, port2)
         elif component1 is None:
             return self._create_delegation_connector(component2, port2, port1)
-- 
2.43.0


From 6701e986b94519dc57dd04640bd6334f96f5ff01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:37 +0000
Subject: [PATCH 37/54] fix: reject delegation connectors between ports of
 opposite direction

---
 src/autosar/xml/element.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index 00a149e..2c6e8e6 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -5576,6 +5576,9 @@ class CompositionSwComponentType(SwComponentType, Searchable):
                                      inner_component: SwComponentPrototype,
                                      inner_port: PortPrototype,
                                      outer_port: PortPrototype) -> DelegationSwConnector:
+        if (isinstance(inner_port, ProvidePortPrototype) and isinstance(outer_port, RequirePortPrototype)) or \
+                (isinstance(inner_port, RequirePortPrototype) and isinstance(outer_port, ProvidePortPrototype)):
+            raise ValueError('cannot create delegation connector between a provide-port and a require-port')
         if isinstance(outer_port, ProvidePortPrototype):
             connector_name = '_'.join([inner_component.name, inner_port.name, outer_port.name])
         else:
-- 
2.43.0


From 8b73dda7b7c8b1b6ffd703787116904acdfdd83b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:37 +0000
Subject: [PATCH 38/54] fix: reject created ports and component prototypes
 whose name is already used

---
 src/autosar/xml/element.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index 2c6e8e6..7944de8 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -4971,6 +4971,13 @@ class SwComponentType(ARElement, Searchable):
                 return elem
         return None
 
+    def _check_name_is_unused(self, name: str) -> None:
+        """
+        Raises ValueError if the component already has a part with this name
+        """
+        if self.find(name) is not None:
+            raise ValueError(f"{self.name}: An element with name '{name}' already exists")
+
     def create_p_port(self,
                       name: str,
                       port_interface: PortInterface | None = None,
@@ -5002,6 +5009,7 @@ class SwComponentType(ARElement, Searchable):
                     processed.extend(ProvidePortComSpec.make_from_port_interface(port_interface, **unprocessed))
                 com_spec = processed
         port = ProvidePortPrototype(name, port_interface.ref(), com_spec, **kwargs)
+        self._check_name_is_unused(name)
         self.append_port(port)
         return port
 
@@ -5049,6 +5057,7 @@ class SwComponentType(ARElement, Searchable):
                     processed.extend(RequirePortComSpec.make_from_port_interface(port_interface, **unprocessed))
                 com_spec = processed
         port = RequirePortPrototype(name, port_interface.ref(), com_spec, allow_unconnected, **kwargs)
+        self._check_name_is_unused(name)
         self.append_port(port)
         return port
 
@@ -5085,6 +5094,7 @@ class SwComponentType(ARElement, Searchable):
                 required_com_spec = RequirePortComSpec.make_from_port_interface(port_interface, **required_com_spec)
                 assert required_com_spec is not None
         port = PRPortPrototype(name, port_interface.ref(), provided_com_spec, required_com_spec, **kwargs)
+        self._check_name_is_unused(name)
         self.append_port(port)
         return port
 
@@ -5461,6 +5471,7 @@ class CompositionSwComponentType(SwComponentType, Searchable):
         if name is None:
             name = component_type.name
         component_prototype = SwComponentPrototype(name, component_type.ref(), **kwargs)
+        self._check_name_is_unused(name)
         self.append_component(component_prototype)
         return component_prototype
 
-- 
2.43.0


From 9b5952b29689317abeb670204260f83bb4af51f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:25 +0000
Subject: [PATCH 39/54] fix: a value group keeps the values of a SwValues
 object

---
 src/autosar/xml/element.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index 7944de8..bb00e18 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -2455,6 +2455,9 @@ class SwValues(ARObject):
         if values is not None:
             if isinstance(values, (int, float, str, NumericalValue, ValueGroup)):
                 self.append(values)
+            elif isinstance(values, SwValues):
+                for value in values.values:
+                    self.append(value)
             elif isinstance(values, list):
                 for value in values:
                     self.append(value)
-- 
2.43.0


From 46128a572ac8bf212b9753117c17bcdbb4ad7fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:04 +0000
Subject: [PATCH 40/54] fix: the type header is valid C and gives C linkage in
 C++

---
 src/autosar/generator/type_generator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/autosar/generator/type_generator.py b/src/autosar/generator/type_generator.py
index 0b317eb..d593076 100644
--- a/src/autosar/generator/type_generator.py
+++ b/src/autosar/generator/type_generator.py
@@ -48,7 +48,7 @@ class TypeGenerator:
         code.append(C.ifndef(include_guard))
         code.append(C.define(include_guard))
         code.append(C.blank())
-        code.append(C.ifndef("__cplusplus"))
+        code.append(C.ifdef("__cplusplus"))
         code.append(C.line(C.extern("C")))
         code.append(C.line("{"))
         code.append(C.endif())
@@ -60,7 +60,7 @@ class TypeGenerator:
         code.append(C.blank())
         code.extend(self._gen_type_defs(self.gen_data_type_creation_order()))
         code.append(C.blank())
-        code.append(C.ifndef("__cplusplus"))
+        code.append(C.ifdef("__cplusplus"))
         code.append(C.line("}"))
         code.append([C.endif(), C.line_comment(" __cplusplus")])
         code.append([C.endif(), C.line_comment(" " + include_guard)])
-- 
2.43.0


From 68ab76983bb1fa391ccbe72dffa2fd636ee1538d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:04 +0000
Subject: [PATCH 41/54] fix: arrays with implementation policy, size handling
 or size semantics reach the model

---
 src/autosar/model/implementation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/autosar/model/implementation.py b/src/autosar/model/implementation.py
index 1cad2ab..3783819 100644
--- a/src/autosar/model/implementation.py
+++ b/src/autosar/model/implementation.py
@@ -164,11 +164,11 @@ class ImplementationModel:
         else:
             raise NotImplementedError(last_element.category)
         if last_element.array_impl_policy is not None:
-            sub_element.impl_policy = rte_enumeration.ArrayImplPolicy(last_element.array_impl_policy)
+            sub_element.impl_policy = rte_enumeration.ArrayImplPolicy[last_element.array_impl_policy.name]
         if last_element.array_size_handling is not None:
-            sub_element.size_handling = rte_enumeration.ArraySizeHandling(last_element.array_size_handling)
+            sub_element.size_handling = rte_enumeration.ArraySizeHandling[last_element.array_size_handling.name]
         if last_element.array_size_semantics is not None:
-            sub_element.size_semantics = rte_enumeration.ArraySizeSemantics(last_element.array_size_semantics)
+            sub_element.size_semantics = rte_enumeration.ArraySizeSemantics[last_element.array_size_semantics.name]
         data_type.sub_elements.append(sub_element)
         for ar_sub_elem in reversed(element.sub_elements[:-1]):
             xml_ref = elem_ref + "/" + ar_sub_elem.name
-- 
2.43.0


From 378d1b91432be866f58603c19fd3a30695efe034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:04 +0000
Subject: [PATCH 42/54] fix: operations accept possible errors as a list of
 path strings

---
 src/autosar/xml/element.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index bb00e18..fdd3483 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -3696,6 +3696,8 @@ class ClientServerOperation(Identifiable):
                 self.append_possible_error_ref(ApplicationErrorRef(possible_error_refs))
             elif isinstance(possible_error_refs, list):
                 for possible_error_ref in possible_error_refs:
+                    if isinstance(possible_error_ref, str):
+                        possible_error_ref = ApplicationErrorRef(possible_error_ref)
                     self.append_possible_error_ref(possible_error_ref)
             else:
                 msg = f"possible_error_refs: Invalid type '{str(type(possible_error_refs))}'"
-- 
2.43.0


From 2899fab081816cb11d0794b5d309d545f234f7e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:47 +0000
Subject: [PATCH 43/54] fix: unknown content of a composition is not read as
 component prototype

---
 src/autosar/xml/reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/autosar/xml/reader.py b/src/autosar/xml/reader.py
index 380d835..e47b7db 100644
--- a/src/autosar/xml/reader.py
+++ b/src/autosar/xml/reader.py
@@ -4457,7 +4457,7 @@ class Reader:
         xml_child = child_elements.get("COMPONENTS")
         if xml_child is not None:
             component_list = []
-            for xml_grand_child in xml_child.findall("./*"):
+            for xml_grand_child in xml_child.findall("./SW-COMPONENT-PROTOTYPE"):
                 component_list.append(self._read_sw_component_prototype(xml_grand_child))
             data["components"] = component_list
         xml_child = child_elements.get("CONNECTORS")
-- 
2.43.0


From c6a105f6edad518a3b9de7a8900ece9c47c99e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:47 +0000
Subject: [PATCH 44/54] fix: unknown content of value groups is reported as any
 other

---
 src/autosar/xml/reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/autosar/xml/reader.py b/src/autosar/xml/reader.py
index e47b7db..5c3d8ef 100644
--- a/src/autosar/xml/reader.py
+++ b/src/autosar/xml/reader.py
@@ -3135,7 +3135,7 @@ class Reader:
             elif xml_child.tag in ("VTF", "VG"):
                 continue  # Not supported, skip
             else:
-                print(f"Unprocessed child element in VALUE-GROUP: <{xml_child.tag}>", file=sys.stderr)
+                self._report_unprocessed_element(xml_child)
 
     def _read_value_group(self, xml_element: ElementTree.Element) -> ar_element.ValueGroup:
         """
-- 
2.43.0


From db997e9006a458df9514eb0f1c867819336f9aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:57 +0000
Subject: [PATCH 45/54] fix: administrative data with unnamed, nested or
 captioned groups can be read

---
 src/autosar/xml/reader.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/autosar/xml/reader.py b/src/autosar/xml/reader.py
index 5c3d8ef..351314b 100644
--- a/src/autosar/xml/reader.py
+++ b/src/autosar/xml/reader.py
@@ -572,16 +572,16 @@ class Reader:
         """
         Reads Complex-type AR:SDG
         """
-        group_key = xml_element.attrib['GID']
+        group_key = xml_element.attrib.get('GID')  # GID is optional
         xml_sd = xml_element.find('./SD')
-        special_data = self._read_admin_data_sd(xml_sd)
+        special_data = self._read_admin_data_sd(xml_sd) if xml_sd is not None else {}
         return {group_key: special_data}
 
     def _read_admin_data_sd(self, xml_element: ElementTree.Element) -> dict[str, str]:
         """
         Reads Complex-type AR:SD
         """
-        key = xml_element.attrib['GID']
+        key = xml_element.attrib.get('GID')  # GID is optional
         value = xml_element.text
         return {key: value}
 
-- 
2.43.0


From 4c55973a98a6c30d648e1dae429dcc121f1fbd08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:24 +0000
Subject: [PATCH 46/54] fix: comments, processing instructions and encoding
 declarations do not change text that is read

---
 src/autosar/xml/reader.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/autosar/xml/reader.py b/src/autosar/xml/reader.py
index 351314b..3e1479d 100644
--- a/src/autosar/xml/reader.py
+++ b/src/autosar/xml/reader.py
@@ -361,6 +361,7 @@ class Reader:
         self.file_base_name = os.path.basename(file_path)
         self.observed_unsupported_elements = set()
         self.stop_on_error = stop_on_error
+        self._strip_comments(self.xml_root)
         self._clean_namespace('http://autosar.org/schema/r4.0')
         self._read_root_element()
         self._read_packages()
@@ -372,10 +373,12 @@ class Reader:
         """
         self.observed_unsupported_elements = set()
         self.document = None
-        self.xml_root = ElementTree.fromstring(bytes(xml, encoding="utf-8"))
+        parser = ElementTree.XMLParser(encoding="utf-8")  # An encoding declared in the string no longer applies
+        self.xml_root = ElementTree.fromstring(bytes(xml, encoding="utf-8"), parser)
         self.file_path = ""
         self.file_base_name = ""
         self.stop_on_error = stop_on_error
+        self._strip_comments(self.xml_root)
         self._clean_namespace('http://autosar.org/schema/r4.0')
         self._read_root_element()
         self._read_packages()
@@ -388,6 +391,7 @@ class Reader:
         """
         self.observed_unsupported_elements = set()
         elem = ElementTree.fromstring(xml)
+        self._strip_comments(elem)
         self.file_path = None
         self.file_base_name = None
         self.stop_on_error = False
@@ -439,6 +443,13 @@ class Reader:
         """
         raise ar_exception.ParseError(self._element_error_message(element, message))
 
+    def _strip_comments(self, xml_elem: ElementTree.Element) -> None:
+        """
+        Removes comments and processing instructions in place.
+        The text before and after each of them becomes one text.
+        """
+        ElementTree.strip_tags(xml_elem, ElementTree.Comment, ElementTree.ProcessingInstruction)
+
     def _clean_namespace(self, namespace: str) -> None:
         """
         Removes XML namespace in place.
-- 
2.43.0


From f20dadfeac447a6e4970e97a91c7284773d29472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:59 +0000
Subject: [PATCH 47/54] fix: texts that XML cannot carry are refused when they
 are written

---
 src/autosar/xml/writer.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/autosar/xml/writer.py b/src/autosar/xml/writer.py
index a2b0b24..b78a1d1 100644
--- a/src/autosar/xml/writer.py
+++ b/src/autosar/xml/writer.py
@@ -7,6 +7,7 @@ from typing import TextIO
 import sys
 import math
 import decimal
+import re
 from xml.sax.saxutils import escape
 import autosar.base as ar_base
 import autosar.xml.document as ar_document
@@ -19,6 +20,9 @@ import autosar.xml.enumeration as ar_enum
 MultiLanguageOverviewParagraph = ar_element.MultiLanguageOverviewParagraph
 TupleList = list[tuple[str, str]]
 
+# Characters which can't be part of an XML document, not even as character reference
+INVALID_XML_CHAR = re.compile('[^\t\n\r\x20-\ud7ff\ue000-\ufffd\U00010000-\U0010ffff]')
+
 
 class _XMLWriter:
     def __init__(self, indentation_step: int) -> None:
@@ -73,16 +77,26 @@ class _XMLWriter:
     def _add_inline_text(self, text):
         self.fh.write(text)
 
+    def _check_text(self, text: str) -> None:
+        """
+        Raises ValueError if text can't be written to an XML document
+        """
+        match = INVALID_XML_CHAR.search(text)
+        if match is not None:
+            raise ValueError(f"Character {match.group(0)!r} is not allowed in XML documents: {text!r}")
+
     def _escape_text(self, text: str) -> str:
         """
         Escapes characters with special meaning in XML character data
         """
+        self._check_text(text)
         return escape(text, {'\r': '&#13;'})
 
     def _escape_attr(self, text: str) -> str:
         """
         Escapes characters with special meaning in XML attribute values
         """
+        self._check_text(text)
         return escape(text, {'"': '&quot;', '\t': '&#9;', '\n': '&#10;', '\r': '&#13;'})
 
     def _add_child(self, tag: str, attr: TupleList = None):
-- 
2.43.0


From bd8eedc02e402aa919d99b6eebbd906c6c8e4195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:42 +0000
Subject: [PATCH 48/54] fix: paths below a part lead nowhere, nested type
 elements are found by their references

---
 src/autosar/xml/element.py | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index fdd3483..083f4b6 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -1956,6 +1956,16 @@ class ImplementationDataTypeElement(Identifiable):
         return AbstractImplementationDataTypeElementRef(ref_str,
                                                         ar_enum.IdentifiableSubTypes.IMPLEMENTATION_DATA_TYPE_ELEMENT)
 
+    def find(self, ref: str) -> Any:
+        """
+        Finds sub-element by reference
+        """
+        parts = ref.partition('/')
+        item = self._find_by_name(self.sub_elements, parts[0])
+        if (item is not None) and (len(parts[2]) > 0):
+            return item.find(parts[2])
+        return item
+
 
 class ImplementationDataType(AutosarDataType):
     """
@@ -2014,8 +2024,11 @@ class ImplementationDataType(AutosarDataType):
         """
         Finds item by reference
         """
-        assert "/" not in ref
-        return self._find_by_name(self.sub_elements, ref)
+        parts = ref.partition('/')
+        item = self._find_by_name(self.sub_elements, parts[0])
+        if (item is not None) and (len(parts[2]) > 0):
+            return item.find(parts[2])
+        return item
 
 
 class DataPrototype(Identifiable):
@@ -2942,7 +2955,7 @@ class Package(CollectableElement):
         item = self._collection_map.get(parts[0], None)
         if item is not None:
             if len(parts[2]) > 0:
-                return item.find(parts[2])
+                return item.find(parts[2]) if hasattr(item, "find") else None
         return item
 
     def filter(self, *names: str) -> Iterator[ARElement]:
@@ -4971,6 +4984,8 @@ class SwComponentType(ARElement, Searchable):
         Searches port names for a match in ref
         """
         parts = ref.partition('/')
+        if len(parts[2]) > 0:
+            return None  # Ports have no parts that can be found
         for elem in self.ports:
             if elem.name == parts[0]:
                 return elem
@@ -5453,6 +5468,8 @@ class CompositionSwComponentType(SwComponentType, Searchable):
         Searches components and connectors for a match in ref
         """
         parts = ref.partition('/')
+        if len(parts[2]) > 0:
+            return None  # Components, connectors and ports have no parts that can be found
         for elem in self.components:
             if elem.name == parts[0]:
                 return elem
-- 
2.43.0


From f3eec51e2ee760ee5c44d070eb2b119a10a0b24b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:52 +0000
Subject: [PATCH 49/54] fix: packages inside other packages keep their path in
 configured documents

---
 src/autosar/xml/workspace.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/autosar/xml/workspace.py b/src/autosar/xml/workspace.py
index 76b03ac..a44013c 100644
--- a/src/autosar/xml/workspace.py
+++ b/src/autosar/xml/workspace.py
@@ -250,16 +250,27 @@ class Workspace(ar_element.PackageCollection):
         document = ar_document.Document(schema_version=schema_version)
         file_path = document_config.file_path
         package_refs = document_config.package_refs
-        package_names = set()
+        packages: list[ar_element.Package] = []
         for package_ref in package_refs:
             package = self.find(package_ref)
             if package is not None:
                 if not isinstance(package, ar_element.Package):
                     raise ValueError(f"'{package_ref}' does not reference a package element")
-                if package.name in package_names:
+                if any(package is item for item in packages):
                     raise ValueError(f"Package with SHORT-NAME '{package.name}' already exists")
-                package_names.add(package.name)
-                # The package remains part of this workspace, calling the append method would change its parent
+                packages.append(package)
+        for package in packages:
+            parents = []
+            parent = package.parent
+            while isinstance(parent, ar_element.Package):
+                parents.append(parent)
+                parent = parent.parent
+            if any(parent is item for parent in parents for item in packages):
+                continue  # Written as part of its parent
+            # The package remains part of this workspace, calling the append method would change its parent
+            if parents:
+                document.make_packages(str(parents[0].ref())).packages.append(package)
+            else:
                 document.packages.append(package)
         if self.document_root is not None:
             file_path = os.path.join(self.document_root, file_path)
-- 
2.43.0


From 0f207d20db0b72180339399797a7593602ebd8d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:35 +0000
Subject: [PATCH 50/54] fix: the type header is generated in time that grows
 with the types, not with the paths between them

---
 src/autosar/model/implementation.py | 39 ++++++++++++++++-------------
 1 file changed, 22 insertions(+), 17 deletions(-)

diff --git a/src/autosar/model/implementation.py b/src/autosar/model/implementation.py
index 3783819..2bddf50 100644
--- a/src/autosar/model/implementation.py
+++ b/src/autosar/model/implementation.py
@@ -2,7 +2,6 @@
 Application model
 """
 from typing import Any, Iterator
-from collections import deque
 from autosar.xml import Workspace
 import autosar.xml.element as ar_element
 import autosar.model.element as rte_element
@@ -83,9 +82,10 @@ class ImplementationModel:
         Returns a list of root nodes (tree structures) which shows how data types depend on each other
         """
         dependency_trees = []
+        nodes: dict[str, Node] = {}  # Types used more than once share their node
         for type_ref in sorted(self.source_type_refs):
             data_type = self.data_types[type_ref]
-            dependency_trees.append(self._create_tree_node(data_type))
+            dependency_trees.append(self._create_tree_node(data_type, nodes))
         return dependency_trees
 
     def get_type_creation_order(self, root: Node) -> Iterator[Node]:
@@ -94,14 +94,14 @@ class ImplementationModel:
 
         Apply the reverse level order algorithm to solve the problem
         """
-        que = deque()
-        que.append(root)
         result = []
-        while que:
-            node: Node = que.popleft()
-            result.append(node)
-            for child in reversed(node.children):
-                que.append(child)
+        level = [root]
+        while level:
+            result.extend(level)
+            children = [child for node in level for child in reversed(node.children)]
+            # Of nodes occurring several times on the same level the last one decides
+            unique = {id(child): child for child in reversed(children)}
+            level = list(reversed(unique.values()))
         return reversed(result)
 
     def _create_base_type(self, element: ar_element.SwBaseType) -> rte_element.BaseType:
@@ -274,30 +274,35 @@ class ImplementationModel:
         self.data_types[str(elem_ref)] = data_type
         return data_type
 
-    def _create_tree_node(self, data_type: rte_element.Element) -> Node:
+    def _create_tree_node(self, data_type: rte_element.Element, nodes: dict[str, Node]) -> Node:
+        node = nodes.get(data_type.ref, None)
+        if node is not None:
+            return node
         node = Node(data_type)
+        nodes[data_type.ref] = node
         if isinstance(data_type, rte_element.BaseType):
             pass
         elif isinstance(data_type, rte_element.ScalarType):
-            node.add_child(self._create_tree_node(data_type.base_type))
+            node.add_child(self._create_tree_node(data_type.base_type, nodes))
         elif isinstance(data_type, rte_element.RefType):
-            node.add_child(self._create_tree_node(data_type.impl_type))
+            node.add_child(self._create_tree_node(data_type.impl_type, nodes))
         elif isinstance(data_type, rte_element.PointerType):
-            node.add_child(self._create_tree_node(data_type.target_type))
+            node.add_child(self._create_tree_node(data_type.target_type, nodes))
         elif isinstance(data_type, rte_element.ArrayType):
             last_element: rte_element.ArrayTypeElement = data_type.sub_elements[-1]
-            self._process_array_or_record_element_tree_node(node, last_element.data_type)
+            self._process_array_or_record_element_tree_node(node, last_element.data_type, nodes)
         elif isinstance(data_type, rte_element.RecordType):
             for element in data_type.sub_elements:
-                self._process_array_or_record_element_tree_node(node, element.data_type)
+                self._process_array_or_record_element_tree_node(node, element.data_type, nodes)
         else:
             raise NotImplementedError(str(type(data_type)))
         return node
 
-    def _process_array_or_record_element_tree_node(self, node: Node, element: rte_element.Element) -> None:
+    def _process_array_or_record_element_tree_node(self, node: Node, element: rte_element.Element,
+                                                    nodes: dict[str, Node]) -> None:
         if isinstance(element, rte_element.ScalarType):
             pass  # Arrays and records/structs use the native declaration directly instead of the base type name
         elif isinstance(element, rte_element.RefType):
-            node.add_child(self._create_tree_node(element.impl_type))
+            node.add_child(self._create_tree_node(element.impl_type, nodes))
         else:
             raise NotImplementedError(str(type(element)))
-- 
2.43.0


From 4efebe29db272f7f316935985a2966201ebaeb14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:17 +0000
Subject: [PATCH 51/54] fix: keep the sign of negative zero in documents

---
 src/autosar/xml/writer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/autosar/xml/writer.py b/src/autosar/xml/writer.py
index b78a1d1..5b72c36 100644
--- a/src/autosar/xml/writer.py
+++ b/src/autosar/xml/writer.py
@@ -163,6 +163,8 @@ class _XMLWriter:
             return 'NaN'
         else:
             tmp = decimal.Decimal(str(value))
+            if tmp.is_zero() and tmp.is_signed():
+                return '-0.0'  # Would be read as the integer 0 without its fractional part
             if tmp == tmp.to_integral() and tmp.adjusted() < decimal.getcontext().prec:
                 result = tmp.quantize(decimal.Decimal(1))
             else:
-- 
2.43.0


From 1e3f3f3fa28272d40bdc3def75bfa4a37dd61e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:19 +0000
Subject: [PATCH 52/54] fix: templates shared by several others are applied
 once per application, not on every path to them

---
 src/autosar/xml/workspace.py | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/autosar/xml/workspace.py b/src/autosar/xml/workspace.py
index a44013c..9b825be 100644
--- a/src/autosar/xml/workspace.py
+++ b/src/autosar/xml/workspace.py
@@ -164,7 +164,7 @@ class Workspace(ar_element.PackageCollection):
         Applies template oject in this workspace
         """
         if isinstance(template, ar_template.ElementTemplate):
-            return self._apply_element_template(template, kwargs)
+            return self._apply_element_template(template, kwargs, {})
         elif isinstance(template, ar_template.GenericTemplate):
             return template.apply(self, **kwargs)
         else:
@@ -365,7 +365,8 @@ class Workspace(ar_element.PackageCollection):
                 raise ValueError(f"suffix_filters: Invalid type '{str(type(value))}'")
         self.create_document_mapping(package_ref, tuple(element_types), suffix_filters)
 
-    def _apply_element_template(self, template: ar_template.ElementTemplate, kwargs: dict) -> ar_element.ARElement:
+    def _apply_element_template(self, template: ar_template.ElementTemplate, kwargs: dict,
+                                applied: dict[int, ar_element.ARElement]) -> ar_element.ARElement:
         """
         Wrapper for element templates.
 
@@ -377,9 +378,12 @@ class Workspace(ar_element.PackageCollection):
         After create-method is called:
           if template.append_to_package is True (default):
             Adds the created element to the given package
+
+        Templates that have been applied on the way here are found in applied (by id),
+        templates shared by several others aren't applied once more on every path to them.
         """
         if template.depends is not None:
-            depends_map = self._create_dependencies(template.depends)
+            depends_map = self._create_dependencies(template.depends, applied)
         else:
             depends_map = None
         package_ref = self.get_package_ref_by_role(template.namespace_name, template.package_role)
@@ -394,15 +398,22 @@ class Workspace(ar_element.PackageCollection):
                     raise TypeError(f"{str(type(elem))}: Class is not an ARElement")
                 if template.append_to_package:
                     package.append(elem)
+            if package.find(template.element_name) is elem:
+                applied[id(template)] = elem
             return elem
         else:
             raise TypeError(f"Expected Package, got {str(type(package))}")
 
-    def _create_dependencies(self, dependencies: list[ar_template.TemplateBase]
-                             ) -> dict[str, ar_element.ARElement]:
+    def _create_dependencies(self, dependencies: list[ar_template.TemplateBase],
+                             applied: dict[int, ar_element.ARElement]) -> dict[str, ar_element.ARElement]:
         item_map = {}
         for dependency in dependencies:
-            elem = self.apply(dependency)
+            elem = applied.get(id(dependency), None)
+            if elem is None:
+                if isinstance(dependency, ar_template.ElementTemplate):
+                    elem = self._apply_element_template(dependency, {}, applied)
+                else:
+                    elem = self.apply(dependency)
             if not isinstance(elem, ar_element.ARElement):
                 raise TypeError(f"{str(type(elem))}: Class is not an ARElement")
             if not hasattr(elem, "ref"):
-- 
2.43.0


From 51a4ba227692307926a4c9d0fca7cf3501e87c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:48 +0000
Subject: [PATCH 53/54] fix: a package can't be appended to itself or to a
 package below it

---
 src/autosar/xml/element.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index 083f4b6..03c9311 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -2891,6 +2891,11 @@ class Package(CollectableElement):
             if package.name in self._collection_map:
                 raise ar_except.DuplicateElement(
                     f"Package with SHORT-NAME '{package.name}' already exists in package '{self.name}")
+            ancestor = self
+            while ancestor is not None:
+                if ancestor is package:
+                    raise ValueError(f"Package '{package.name}' can't be part of itself")
+                ancestor = ancestor.parent
             package.parent = self
             self.packages.append(package)
             self._collection_map[package.name] = package
-- 
2.43.0


From 99ec964daf102df28a913eab10749d20d4499d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:02 +0000
Subject: [PATCH 54/54] fix: an element of an implementation data type can't be
 appended to itself or to one of its parts

---
 src/autosar/xml/element.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index 03c9311..29f2c83 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -1940,6 +1940,11 @@ class ImplementationDataTypeElement(Identifiable):
         Appends elem to sub_element list
         """
         if isinstance(elem, ImplementationDataTypeElement):
+            ancestor = self
+            while ancestor is not None:
+                if ancestor is elem:
+                    raise ValueError(f"Element '{elem.name}' can't be part of itself")
+                ancestor = ancestor.parent
             self.sub_elements.append(elem)
             elem.parent = self
         else:
-- 
2.43.0

