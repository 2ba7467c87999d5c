From eed077a1f18f3e420cbc7ab3e7ece5b760756783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:09:15 +0000
Subject: [PATCH 01/52] fix: ignore async rule results of superseded input
 values

---
 .../src/composables/input-rules/input-rules-composable.ts  | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/packages/vlossom/src/composables/input-rules/input-rules-composable.ts b/packages/vlossom/src/composables/input-rules/input-rules-composable.ts
index 4d2fabd..e5b03fe 100644
--- a/packages/vlossom/src/composables/input-rules/input-rules-composable.ts
+++ b/packages/vlossom/src/composables/input-rules/input-rules-composable.ts
@@ -16,7 +16,9 @@ export function useInputRules<T>(
     });
 
     const ruleMessages: Ref<StateMessage[]> = ref([]);
+    let lastCheckId = 0;
     async function checkRules() {
+        const checkId = ++lastCheckId;
         ruleMessages.value = [];
         const pendingRules: Promise<string>[] = [];
 
@@ -46,6 +48,11 @@ export function useInputRules<T>(
             return acc;
         }, []);
 
+        // a newer check has started: these results belong to a superseded value
+        if (checkId !== lastCheckId) {
+            return;
+        }
+
         ruleMessages.value.push(...resolvedMessages);
     }
     watch(computedRules, checkRules, { deep: true });
-- 
2.43.0


From e8df9211d925ac17e951e66db440298f88e89de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:09:15 +0000
Subject: [PATCH 02/52] fix: ignore async message results of superseded input
 values

---
 .../input-messages/input-messages-composable.ts            | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/packages/vlossom/src/composables/input-messages/input-messages-composable.ts b/packages/vlossom/src/composables/input-messages/input-messages-composable.ts
index cd08555..d36b31d 100644
--- a/packages/vlossom/src/composables/input-messages/input-messages-composable.ts
+++ b/packages/vlossom/src/composables/input-messages/input-messages-composable.ts
@@ -9,7 +9,9 @@ export function useInputMessages<T>(
     const innerMessages: Ref<StateMessage[]> = ref([]);
     const showRuleMessages = ref(false);
 
+    let lastCheckId = 0;
     async function checkMessages() {
+        const checkId = ++lastCheckId;
         innerMessages.value = [];
         const pendingMessages: Promise<StateMessage>[] = [];
 
@@ -30,6 +32,11 @@ export function useInputMessages<T>(
             return;
         }
         const resolvedMessages = await Promise.all(pendingMessages);
+        // a newer check has started: these results belong to a superseded value
+        if (checkId !== lastCheckId) {
+            return;
+        }
+
         innerMessages.value.push(...resolvedMessages);
     }
 
-- 
2.43.0


From aa3edf0791c31250497537fde799d0cc238acbe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:18:57 +0000
Subject: [PATCH 03/52] fix: keep form registrations when inputs take over each
 other's ids

---
 .../input-form/input-form-composable.ts           | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/packages/vlossom/src/composables/input-form/input-form-composable.ts b/packages/vlossom/src/composables/input-form/input-form-composable.ts
index 942694b..6d33c1b 100644
--- a/packages/vlossom/src/composables/input-form/input-form-composable.ts
+++ b/packages/vlossom/src/composables/input-form/input-form-composable.ts
@@ -31,12 +31,21 @@ export function useInputForm(
         formStore.updateValid(id.value, valid.value);
     });
 
-    watch(id, (newId, oldId) => {
+    watch(id, (_, oldId) => {
         formStore.removeFromForm(oldId);
-        formStore.updateChanged(newId, changed.value);
-        formStore.updateValid(newId, valid.value);
     });
 
+    // register the new id only after every input has released its old id,
+    // because inputs can take over each other's ids in the same update
+    watch(
+        id,
+        (newId) => {
+            formStore.updateChanged(newId, changed.value);
+            formStore.updateValid(newId, valid.value);
+        },
+        { flush: 'post' },
+    );
+
     onBeforeUnmount(() => {
         formStore.removeFromForm(id.value);
     });
-- 
2.43.0


From f7ebd6c97adc7756b043b54b1238a9e7ad0e28b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:18:57 +0000
Subject: [PATCH 04/52] fix: re-evaluate required radios after the group is
 rendered

---
 .../vlossom/src/components/vs-radio/VsRadio.vue    | 14 +++++++++++++-
 .../src/composables/input/input-composable.ts      |  1 +
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/packages/vlossom/src/components/vs-radio/VsRadio.vue b/packages/vlossom/src/components/vs-radio/VsRadio.vue
index b0b4692..110072f 100644
--- a/packages/vlossom/src/components/vs-radio/VsRadio.vue
+++ b/packages/vlossom/src/components/vs-radio/VsRadio.vue
@@ -46,7 +46,7 @@
 </template>
 
 <script lang="ts">
-import { computed, defineComponent, ref, toRefs, type TemplateRef, useTemplateRef, type PropType } from 'vue';
+import { computed, defineComponent, ref, toRefs, type TemplateRef, useTemplateRef, watch, type PropType } from 'vue';
 import { useColorScheme, useSizeClass, useStyleSet, useInput, useStateClass } from '@/composables';
 import { getColorSchemeProps, getInputProps, getResponsiveProps, getStyleSetProps } from '@/props';
 import { VsComponent, type Size } from '@/declaration';
@@ -126,6 +126,7 @@ export default defineComponent({
             computedDisabled,
             computedReadonly,
             shake,
+            checkRules,
             validate,
             clear,
         } = useInput(
@@ -154,6 +155,17 @@ export default defineComponent({
             },
         );
 
+        // requiredCheck reads the rendered radios, so it has to run again after they are updated
+        watch(
+            inputValue,
+            () => {
+                if (required.value) {
+                    checkRules();
+                }
+            },
+            { flush: 'post' },
+        );
+
         const { stateBoxClasses } = useStateClass(computedState);
 
         const { sizeClass } = useSizeClass(size);
diff --git a/packages/vlossom/src/composables/input/input-composable.ts b/packages/vlossom/src/composables/input/input-composable.ts
index 7c996cc..d61c47f 100644
--- a/packages/vlossom/src/composables/input/input-composable.ts
+++ b/packages/vlossom/src/composables/input/input-composable.ts
@@ -157,6 +157,7 @@ export function useInput<T = unknown>(ctx: any, inputParams: InputComponentParam
         shake,
         computedMessages,
         showRuleMessages,
+        checkRules,
         validate,
         clear,
         computedId,
-- 
2.43.0


From 2a5f986d0d71b2a7ef63fe2cbf9649df81e4f64e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:18:57 +0000
Subject: [PATCH 05/52] fix: do not register inner inputs of composite inputs
 as form fields

---
 .../vlossom/src/components/vs-checkbox/VsCheckboxSet.vue  | 8 ++++++--
 .../src/components/vs-date-picker/VsDatePicker.vue        | 7 ++++++-
 packages/vlossom/src/components/vs-radio/VsRadioSet.vue   | 8 ++++++--
 packages/vlossom/src/components/vs-select/VsSelect.vue    | 7 ++++++-
 4 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/packages/vlossom/src/components/vs-checkbox/VsCheckboxSet.vue b/packages/vlossom/src/components/vs-checkbox/VsCheckboxSet.vue
index 3310bc5..157c95d 100644
--- a/packages/vlossom/src/components/vs-checkbox/VsCheckboxSet.vue
+++ b/packages/vlossom/src/components/vs-checkbox/VsCheckboxSet.vue
@@ -56,8 +56,8 @@
 </template>
 
 <script lang="ts">
-import { computed, defineComponent, ref, toRefs, type PropType, type TemplateRef } from 'vue';
-import { VsComponent, type Size } from '@/declaration';
+import { computed, defineComponent, provide, ref, toRefs, type PropType, type TemplateRef } from 'vue';
+import { FORM_STORE_KEY, VsComponent, type Size } from '@/declaration';
 import {
     getColorSchemeProps,
     getOptionsProps,
@@ -67,6 +67,7 @@ import {
     getMinMaxProps,
 } from '@/props';
 import { useColorScheme, useInput, useSizeClass, useStyleSet, useInputOption } from '@/composables';
+import { FormStore } from '@/stores';
 import { objectUtil } from '@/utils';
 
 import type { VsCheckboxSetStyleSet } from './types';
@@ -183,6 +184,9 @@ export default defineComponent({
             },
         );
 
+        // the inner inputs are parts of this input, not fields of the form
+        provide(FORM_STORE_KEY, FormStore.getDefaultFormStore());
+
         const classObj = computed(() => ({
             'vs-vertical': vertical.value,
             'vs-disabled': computedDisabled.value,
diff --git a/packages/vlossom/src/components/vs-date-picker/VsDatePicker.vue b/packages/vlossom/src/components/vs-date-picker/VsDatePicker.vue
index 055d0ff..35993f2 100644
--- a/packages/vlossom/src/components/vs-date-picker/VsDatePicker.vue
+++ b/packages/vlossom/src/components/vs-date-picker/VsDatePicker.vue
@@ -60,6 +60,7 @@
 import {
     computed,
     defineComponent,
+    provide,
     ref,
     toRefs,
     useTemplateRef,
@@ -69,8 +70,9 @@ import {
     type Ref,
     type TemplateRef,
 } from 'vue';
-import { VsComponent, type Size } from '@/declaration';
+import { FORM_STORE_KEY, VsComponent, type Size } from '@/declaration';
 import { logUtil } from '@/utils';
+import { FormStore } from '@/stores';
 import { useStyleSet, useInput } from '@/composables';
 import { getInputProps, getResponsiveProps, getColorSchemeProps, getStyleSetProps } from '@/props';
 
@@ -213,6 +215,9 @@ export default defineComponent({
             },
         );
 
+        // the inner inputs are parts of this input, not fields of the form
+        provide(FORM_STORE_KEY, FormStore.getDefaultFormStore());
+
         const computedPlaceholder = computed<string>(() => {
             if (!placeholder.value) {
                 return TYPE_TO_FORMAT[type.value];
diff --git a/packages/vlossom/src/components/vs-radio/VsRadioSet.vue b/packages/vlossom/src/components/vs-radio/VsRadioSet.vue
index d4c55dc..aa5eabc 100644
--- a/packages/vlossom/src/components/vs-radio/VsRadioSet.vue
+++ b/packages/vlossom/src/components/vs-radio/VsRadioSet.vue
@@ -56,10 +56,11 @@
 </template>
 
 <script lang="ts">
-import { computed, defineComponent, ref, toRefs, type TemplateRef, useTemplateRef, type PropType } from 'vue';
+import { computed, defineComponent, provide, ref, toRefs, type TemplateRef, useTemplateRef, type PropType } from 'vue';
 import { useColorScheme, useInput, useInputOption, useSizeClass, useStyleSet } from '@/composables';
 import { getColorSchemeProps, getOptionsProps, getInputProps, getResponsiveProps, getStyleSetProps } from '@/props';
-import { VsComponent, type Size } from '@/declaration';
+import { FORM_STORE_KEY, VsComponent, type Size } from '@/declaration';
+import { FormStore } from '@/stores';
 import { objectUtil } from '@/utils';
 import type { VsRadioSetStyleSet } from './types';
 
@@ -163,6 +164,9 @@ export default defineComponent({
             },
         );
 
+        // the inner inputs are parts of this input, not fields of the form
+        provide(FORM_STORE_KEY, FormStore.getDefaultFormStore());
+
         const classObj = computed(() => ({
             'vs-vertical': vertical.value,
         }));
diff --git a/packages/vlossom/src/components/vs-select/VsSelect.vue b/packages/vlossom/src/components/vs-select/VsSelect.vue
index b25905e..b697ec0 100644
--- a/packages/vlossom/src/components/vs-select/VsSelect.vue
+++ b/packages/vlossom/src/components/vs-select/VsSelect.vue
@@ -115,6 +115,7 @@ import {
     computed,
     defineComponent,
     nextTick,
+    provide,
     ref,
     toRefs,
     useTemplateRef,
@@ -125,7 +126,7 @@ import {
     type TemplateRef,
     type CSSProperties,
 } from 'vue';
-import { VsComponent, type OptionItem, type Size } from '@/declaration';
+import { FORM_STORE_KEY, VsComponent, type OptionItem, type Size } from '@/declaration';
 import {
     getColorSchemeProps,
     getStyleSetProps,
@@ -147,6 +148,7 @@ import {
     useClickOutside,
     useSizeClass,
 } from '@/composables';
+import { FormStore } from '@/stores';
 import { objectUtil } from '@/utils';
 import type { VsSelectStyleSet, VsSelectTriggerRef } from './types';
 import { useSelectRules } from './vs-select-rules';
@@ -321,6 +323,9 @@ export default defineComponent({
             },
         );
 
+        // the inner inputs are parts of this input, not fields of the form
+        provide(FORM_STORE_KEY, FormStore.getDefaultFormStore());
+
         const isSelectUnavailable = computed(() => {
             return computedDisabled.value || computedReadonly.value;
         });
-- 
2.43.0


From 392c523d3b355ec94573d4ac26827b2e40df60ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:36:16 +0000
Subject: [PATCH 06/52] fix: show the converted text when a string modifier
 yields the current value

---
 packages/vlossom/src/components/vs-input/VsInput.vue       | 3 +++
 packages/vlossom/src/components/vs-textarea/VsTextarea.vue | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/packages/vlossom/src/components/vs-input/VsInput.vue b/packages/vlossom/src/components/vs-input/VsInput.vue
index 5f455c6..523037a 100644
--- a/packages/vlossom/src/components/vs-input/VsInput.vue
+++ b/packages/vlossom/src/components/vs-input/VsInput.vue
@@ -207,6 +207,9 @@ export default defineComponent({
             const target = event.target as HTMLInputElement;
             const value = target.value || '';
             inputValue.value = convertValue(value);
+            if (typeof inputValue.value === 'string' && target.value !== inputValue.value) {
+                target.value = inputValue.value;
+            }
         }
 
         function focus() {
diff --git a/packages/vlossom/src/components/vs-textarea/VsTextarea.vue b/packages/vlossom/src/components/vs-textarea/VsTextarea.vue
index cd0262d..765726e 100644
--- a/packages/vlossom/src/components/vs-textarea/VsTextarea.vue
+++ b/packages/vlossom/src/components/vs-textarea/VsTextarea.vue
@@ -159,6 +159,9 @@ export default defineComponent({
             const target = event.target as HTMLTextAreaElement;
             const value = target.value || '';
             inputValue.value = convertValue(value);
+            if (target.value !== inputValue.value) {
+                target.value = inputValue.value;
+            }
         }
 
         function onFocus(e: FocusEvent) {
-- 
2.43.0


From 7577cf5e68f8ae8443671a3f9f27830068214bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:36:16 +0000
Subject: [PATCH 07/52] fix: clear the value of a textarea when it is cleared

---
 packages/vlossom/src/components/vs-textarea/VsTextarea.vue | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/packages/vlossom/src/components/vs-textarea/VsTextarea.vue b/packages/vlossom/src/components/vs-textarea/VsTextarea.vue
index 765726e..827dd9f 100644
--- a/packages/vlossom/src/components/vs-textarea/VsTextarea.vue
+++ b/packages/vlossom/src/components/vs-textarea/VsTextarea.vue
@@ -141,6 +141,9 @@ export default defineComponent({
                     onChange: () => {
                         inputValue.value = convertValue(inputValue.value);
                     },
+                    onClear: () => {
+                        inputValue.value = '';
+                    },
                 },
             },
         );
-- 
2.43.0


From 18e4a32181a4065be657f96997d28662c66625d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:41:38 +0000
Subject: [PATCH 08/52] fix: re-check built-in rules when their settings change
 and honour noDefaultRules in file drop

---
 .../src/components/vs-checkbox/VsCheckbox.vue   |  3 +++
 .../components/vs-checkbox/VsCheckboxSet.vue    |  5 ++++-
 .../components/vs-date-picker/VsDatePicker.vue  |  3 +++
 .../src/components/vs-file-drop/VsFileDrop.vue  | 17 ++++++++++++++++-
 .../vlossom/src/components/vs-input/VsInput.vue | 15 ++++++++++++++-
 .../vlossom/src/components/vs-radio/VsRadio.vue |  2 ++
 .../src/components/vs-radio/VsRadioSet.vue      | 15 ++++++++++++++-
 .../src/components/vs-select/VsSelect.vue       |  3 +++
 .../src/components/vs-switch/VsSwitch.vue       |  4 ++++
 .../src/components/vs-textarea/VsTextarea.vue   | 15 ++++++++++++++-
 10 files changed, 77 insertions(+), 5 deletions(-)

diff --git a/packages/vlossom/src/components/vs-checkbox/VsCheckbox.vue b/packages/vlossom/src/components/vs-checkbox/VsCheckbox.vue
index c304e62..240311a 100644
--- a/packages/vlossom/src/components/vs-checkbox/VsCheckbox.vue
+++ b/packages/vlossom/src/components/vs-checkbox/VsCheckbox.vue
@@ -153,6 +153,7 @@ export default defineComponent({
             shake,
             validate,
             clear,
+            checkRules,
         } = useInput(
             { emit },
             {
@@ -191,6 +192,8 @@ export default defineComponent({
             },
         );
 
+        watch(required, checkRules);
+
         const { stateBoxClasses } = useStateClass(computedState);
 
         const { sizeClass } = useSizeClass(size);
diff --git a/packages/vlossom/src/components/vs-checkbox/VsCheckboxSet.vue b/packages/vlossom/src/components/vs-checkbox/VsCheckboxSet.vue
index 157c95d..21421e9 100644
--- a/packages/vlossom/src/components/vs-checkbox/VsCheckboxSet.vue
+++ b/packages/vlossom/src/components/vs-checkbox/VsCheckboxSet.vue
@@ -56,7 +56,7 @@
 </template>
 
 <script lang="ts">
-import { computed, defineComponent, provide, ref, toRefs, type PropType, type TemplateRef } from 'vue';
+import { computed, defineComponent, provide, ref, toRefs, watch, type PropType, type TemplateRef } from 'vue';
 import { FORM_STORE_KEY, VsComponent, type Size } from '@/declaration';
 import {
     getColorSchemeProps,
@@ -153,6 +153,7 @@ export default defineComponent({
             shake,
             validate,
             clear,
+            checkRules,
         } = useInput(
             { emit },
             {
@@ -184,6 +185,8 @@ export default defineComponent({
             },
         );
 
+        watch([required, max, min], checkRules);
+
         // the inner inputs are parts of this input, not fields of the form
         provide(FORM_STORE_KEY, FormStore.getDefaultFormStore());
 
diff --git a/packages/vlossom/src/components/vs-date-picker/VsDatePicker.vue b/packages/vlossom/src/components/vs-date-picker/VsDatePicker.vue
index 35993f2..1ec37b6 100644
--- a/packages/vlossom/src/components/vs-date-picker/VsDatePicker.vue
+++ b/packages/vlossom/src/components/vs-date-picker/VsDatePicker.vue
@@ -196,6 +196,7 @@ export default defineComponent({
             shake,
             validate,
             clear,
+            checkRules,
         } = useInput<VsDatePickerValueType>(
             { emit },
             {
@@ -215,6 +216,8 @@ export default defineComponent({
             },
         );
 
+        watch([required, min, max], checkRules);
+
         // the inner inputs are parts of this input, not fields of the form
         provide(FORM_STORE_KEY, FormStore.getDefaultFormStore());
 
diff --git a/packages/vlossom/src/components/vs-file-drop/VsFileDrop.vue b/packages/vlossom/src/components/vs-file-drop/VsFileDrop.vue
index 4d8df07..530235c 100644
--- a/packages/vlossom/src/components/vs-file-drop/VsFileDrop.vue
+++ b/packages/vlossom/src/components/vs-file-drop/VsFileDrop.vue
@@ -95,7 +95,17 @@
 </template>
 
 <script lang="ts">
-import { computed, defineComponent, ref, toRefs, useTemplateRef, type PropType, type Ref, type TemplateRef } from 'vue';
+import {
+    computed,
+    defineComponent,
+    ref,
+    toRefs,
+    useTemplateRef,
+    watch,
+    type PropType,
+    type Ref,
+    type TemplateRef,
+} from 'vue';
 import { VsComponent, type Breakpoints, type StateMessage } from '@/declaration';
 import { useColorScheme, useStyleSet, useInput, useStateClass } from '@/composables';
 import { getInputProps, getResponsiveProps, getColorSchemeProps, getStyleSetProps, getMinMaxProps } from '@/props';
@@ -144,6 +154,7 @@ export default defineComponent({
             messages,
             multiple,
             rules,
+            noDefaultRules,
             state,
             max,
             min,
@@ -195,6 +206,7 @@ export default defineComponent({
             shake,
             validate,
             clear,
+            checkRules,
         } = useInput(
             { emit },
             {
@@ -206,6 +218,7 @@ export default defineComponent({
                 messages: computed(() => [...messages.value, ...componentMessages.value]),
                 rules,
                 defaultRules: computed(() => [requiredCheck, acceptCheck]),
+                noDefaultRules,
                 state,
                 callbacks: {
                     onMounted: () => {
@@ -216,6 +229,8 @@ export default defineComponent({
             },
         );
 
+        watch([required, accept], checkRules);
+
         const classObj = computed(() => ({
             'vs-focus-visible': !computedDisabled.value && !computedReadonly.value,
             'vs-focus-within': !computedDisabled.value && !computedReadonly.value,
diff --git a/packages/vlossom/src/components/vs-input/VsInput.vue b/packages/vlossom/src/components/vs-input/VsInput.vue
index 523037a..9ebfda9 100644
--- a/packages/vlossom/src/components/vs-input/VsInput.vue
+++ b/packages/vlossom/src/components/vs-input/VsInput.vue
@@ -66,7 +66,17 @@
 </template>
 
 <script lang="ts">
-import { computed, defineComponent, toRefs, useTemplateRef, type PropType, type Ref, type TemplateRef, ref } from 'vue';
+import {
+    computed,
+    defineComponent,
+    toRefs,
+    useTemplateRef,
+    watch,
+    type PropType,
+    type Ref,
+    type TemplateRef,
+    ref,
+} from 'vue';
 import { VsComponent, type Size, type StringModifiers } from '@/declaration';
 import { useColorScheme, useStyleSet, useInput, useStringModifier, useStateClass, useSizeClass } from '@/composables';
 import { getInputProps, getResponsiveProps, getColorSchemeProps, getStyleSetProps, getMinMaxProps } from '@/props';
@@ -164,6 +174,7 @@ export default defineComponent({
             shake,
             validate,
             clear,
+            checkRules,
         } = useInput(
             { emit },
             {
@@ -189,6 +200,8 @@ export default defineComponent({
             },
         );
 
+        watch([required, max, min, type], checkRules);
+
         const { sizeClass } = useSizeClass(size);
 
         const classObj = computed(() => ({
diff --git a/packages/vlossom/src/components/vs-radio/VsRadio.vue b/packages/vlossom/src/components/vs-radio/VsRadio.vue
index 110072f..00256ea 100644
--- a/packages/vlossom/src/components/vs-radio/VsRadio.vue
+++ b/packages/vlossom/src/components/vs-radio/VsRadio.vue
@@ -155,6 +155,8 @@ export default defineComponent({
             },
         );
 
+        watch(required, checkRules);
+
         // requiredCheck reads the rendered radios, so it has to run again after they are updated
         watch(
             inputValue,
diff --git a/packages/vlossom/src/components/vs-radio/VsRadioSet.vue b/packages/vlossom/src/components/vs-radio/VsRadioSet.vue
index aa5eabc..1012dbc 100644
--- a/packages/vlossom/src/components/vs-radio/VsRadioSet.vue
+++ b/packages/vlossom/src/components/vs-radio/VsRadioSet.vue
@@ -56,7 +56,17 @@
 </template>
 
 <script lang="ts">
-import { computed, defineComponent, provide, ref, toRefs, type TemplateRef, useTemplateRef, type PropType } from 'vue';
+import {
+    computed,
+    defineComponent,
+    provide,
+    ref,
+    toRefs,
+    type TemplateRef,
+    useTemplateRef,
+    watch,
+    type PropType,
+} from 'vue';
 import { useColorScheme, useInput, useInputOption, useSizeClass, useStyleSet } from '@/composables';
 import { getColorSchemeProps, getOptionsProps, getInputProps, getResponsiveProps, getStyleSetProps } from '@/props';
 import { FORM_STORE_KEY, VsComponent, type Size } from '@/declaration';
@@ -143,6 +153,7 @@ export default defineComponent({
             shake,
             validate,
             clear,
+            checkRules,
         } = useInput(
             { emit },
             {
@@ -164,6 +175,8 @@ export default defineComponent({
             },
         );
 
+        watch(required, checkRules);
+
         // the inner inputs are parts of this input, not fields of the form
         provide(FORM_STORE_KEY, FormStore.getDefaultFormStore());
 
diff --git a/packages/vlossom/src/components/vs-select/VsSelect.vue b/packages/vlossom/src/components/vs-select/VsSelect.vue
index b697ec0..9da6f90 100644
--- a/packages/vlossom/src/components/vs-select/VsSelect.vue
+++ b/packages/vlossom/src/components/vs-select/VsSelect.vue
@@ -292,6 +292,7 @@ export default defineComponent({
             shake,
             validate,
             clear,
+            checkRules,
         } = useInput(
             { emit },
             {
@@ -323,6 +324,8 @@ export default defineComponent({
             },
         );
 
+        watch([required, max, min], checkRules);
+
         // the inner inputs are parts of this input, not fields of the form
         provide(FORM_STORE_KEY, FormStore.getDefaultFormStore());
 
diff --git a/packages/vlossom/src/components/vs-switch/VsSwitch.vue b/packages/vlossom/src/components/vs-switch/VsSwitch.vue
index 66b6449..ae80344 100644
--- a/packages/vlossom/src/components/vs-switch/VsSwitch.vue
+++ b/packages/vlossom/src/components/vs-switch/VsSwitch.vue
@@ -60,6 +60,7 @@ import {
     ref,
     toRefs,
     useTemplateRef,
+    watch,
     type CSSProperties,
     type PropType,
     type TemplateRef,
@@ -160,6 +161,7 @@ export default defineComponent({
             shake,
             validate,
             clear,
+            checkRules,
         } = useInput(
             { emit },
             {
@@ -198,6 +200,8 @@ export default defineComponent({
             },
         );
 
+        watch(required, checkRules);
+
         const { stateBoxClasses } = useStateClass(computedState);
 
         async function onChange() {
diff --git a/packages/vlossom/src/components/vs-textarea/VsTextarea.vue b/packages/vlossom/src/components/vs-textarea/VsTextarea.vue
index 827dd9f..eaea4e9 100644
--- a/packages/vlossom/src/components/vs-textarea/VsTextarea.vue
+++ b/packages/vlossom/src/components/vs-textarea/VsTextarea.vue
@@ -43,7 +43,17 @@
 </template>
 
 <script lang="ts">
-import { computed, defineComponent, ref, toRefs, useTemplateRef, type TemplateRef, type PropType, type Ref } from 'vue';
+import {
+    computed,
+    defineComponent,
+    ref,
+    toRefs,
+    useTemplateRef,
+    watch,
+    type TemplateRef,
+    type PropType,
+    type Ref,
+} from 'vue';
 import { VsComponent, type Size, type StringModifiers } from '@/declaration';
 import { getColorSchemeProps, getInputProps, getMinMaxProps, getResponsiveProps, getStyleSetProps } from '@/props';
 import { useColorScheme, useInput, useSizeClass, useStateClass, useStyleSet, useStringModifier } from '@/composables';
@@ -121,6 +131,7 @@ export default defineComponent({
             shake,
             validate,
             clear,
+            checkRules,
         } = useInput(
             { emit },
             {
@@ -148,6 +159,8 @@ export default defineComponent({
             },
         );
 
+        watch([required, max, min], checkRules);
+
         const classObj = computed(() => ({
             'vs-disabled': computedDisabled.value,
             'vs-readonly': computedReadonly.value,
-- 
2.43.0


From db810822ab3de8214d04b1a42a50db5e5d5db2e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:43:49 +0000
Subject: [PATCH 09/52] fix: require a number in required number inputs and
 accept 0 and false in required selects

---
 packages/vlossom/src/components/vs-input/vs-input-rules.ts   | 2 +-
 packages/vlossom/src/components/vs-select/vs-select-rules.ts | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/vlossom/src/components/vs-input/vs-input-rules.ts b/packages/vlossom/src/components/vs-input/vs-input-rules.ts
index 445e4fe..ab06023 100644
--- a/packages/vlossom/src/components/vs-input/vs-input-rules.ts
+++ b/packages/vlossom/src/components/vs-input/vs-input-rules.ts
@@ -8,7 +8,7 @@ export function useVsInputRules(
     type: Ref<VsInputType>,
 ) {
     function requiredCheck(v: VsInputValueType) {
-        if (required.value && v === '') {
+        if (required.value && (v === '' || v === null || v === undefined)) {
             return 'required';
         }
 
diff --git a/packages/vlossom/src/components/vs-select/vs-select-rules.ts b/packages/vlossom/src/components/vs-select/vs-select-rules.ts
index cb81f96..7421d75 100644
--- a/packages/vlossom/src/components/vs-select/vs-select-rules.ts
+++ b/packages/vlossom/src/components/vs-select/vs-select-rules.ts
@@ -13,7 +13,7 @@ export function useSelectRules(
         if (multiple.value) {
             return !Array.isArray(inputValue) || inputValue.length === 0 ? 'required' : '';
         }
-        return !inputValue ? 'required' : '';
+        return inputValue === null || inputValue === undefined || inputValue === '' ? 'required' : '';
     }
 
     function maxCheck(inputValue: any): string {
-- 
2.43.0


From 1347123c6bb892f61814b091b63b936dfcc382c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:51:54 +0000
Subject: [PATCH 10/52] fix: keep the chips of a locked select

---
 .../components/vs-select/composables/select-value-composable.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/vlossom/src/components/vs-select/composables/select-value-composable.ts b/packages/vlossom/src/components/vs-select/composables/select-value-composable.ts
index f2b112a..c9e850d 100644
--- a/packages/vlossom/src/components/vs-select/composables/select-value-composable.ts
+++ b/packages/vlossom/src/components/vs-select/composables/select-value-composable.ts
@@ -57,7 +57,7 @@ export function useSelectValue({
     }
 
     function deselectOption(optionId: string) {
-        if (!isSelected(optionId)) {
+        if (isSelectUnavailable.value || !isSelected(optionId)) {
             return;
         }
 
-- 
2.43.0


From 0b75e43bffc54e7533f6b7b7c14d1474addcb3b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:56:17 +0000
Subject: [PATCH 11/52] fix: propagate form requests repeated in the same tick

---
 .../vlossom/src/components/vs-form/VsForm.vue   | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/packages/vlossom/src/components/vs-form/VsForm.vue b/packages/vlossom/src/components/vs-form/VsForm.vue
index 132c4da..7f4be22 100644
--- a/packages/vlossom/src/components/vs-form/VsForm.vue
+++ b/packages/vlossom/src/components/vs-form/VsForm.vue
@@ -32,9 +32,17 @@ export default defineComponent({
         const valid = computed(() => Object.values(formStore.validObj.value).every((v) => v));
         const changed = computed(() => Object.values(formStore.changedObj.value).some((v) => v));
 
+        // a second request before the flags are propagated must not toggle them back
+        let validateRequested = false;
+        let clearRequested = false;
+
         async function validate() {
-            formStore.toggleValidateFlag();
+            if (!validateRequested) {
+                validateRequested = true;
+                formStore.toggleValidateFlag();
+            }
             await nextTick();
+            validateRequested = false;
 
             if (!valid.value) {
                 // on error callback with invalid labels
@@ -46,7 +54,14 @@ export default defineComponent({
         }
 
         function clear() {
+            if (clearRequested) {
+                return;
+            }
+            clearRequested = true;
             formStore.toggleClearFlag();
+            nextTick(() => {
+                clearRequested = false;
+            });
         }
 
         watch(
-- 
2.43.0


From 5a3078c83c079644ab0f92733333384605ae5779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:01:09 +0000
Subject: [PATCH 12/52] fix: apply guarded changes to the current value and
 keep the marks of refused ones

---
 .../src/components/vs-checkbox/VsCheckbox.vue      |  7 ++++---
 .../vlossom/src/components/vs-radio/VsRadio.vue    | 14 +++++++++++++-
 .../vlossom/src/components/vs-switch/VsSwitch.vue  | 11 ++++++++---
 3 files changed, 25 insertions(+), 7 deletions(-)

diff --git a/packages/vlossom/src/components/vs-checkbox/VsCheckbox.vue b/packages/vlossom/src/components/vs-checkbox/VsCheckbox.vue
index 240311a..929a0ad 100644
--- a/packages/vlossom/src/components/vs-checkbox/VsCheckbox.vue
+++ b/packages/vlossom/src/components/vs-checkbox/VsCheckbox.vue
@@ -211,17 +211,18 @@ export default defineComponent({
                 return;
             }
 
-            const toValue = getUpdatedValue(!isChecked.value);
+            const toChecked = !isChecked.value;
 
             const beforeChangeFn = beforeChange.value;
             if (beforeChangeFn) {
-                const result = await beforeChangeFn(inputValue.value, toValue, trueValue.value);
+                const result = await beforeChangeFn(inputValue.value, getUpdatedValue(toChecked), trueValue.value);
                 if (!result) {
                     return;
                 }
             }
 
-            inputValue.value = toValue;
+            // the value may have been updated by others while the guard was pending
+            inputValue.value = getUpdatedValue(toChecked);
             emit('toggle', isChecked.value, e);
         }
 
diff --git a/packages/vlossom/src/components/vs-radio/VsRadio.vue b/packages/vlossom/src/components/vs-radio/VsRadio.vue
index 00256ea..c6b74e0 100644
--- a/packages/vlossom/src/components/vs-radio/VsRadio.vue
+++ b/packages/vlossom/src/components/vs-radio/VsRadio.vue
@@ -178,14 +178,26 @@ export default defineComponent({
             'vs-readonly': computedReadonly.value,
         }));
 
+        // the browser has already moved the selection, but the guard decides
+        function restoreChecked() {
+            const checkedValue = stringUtil.convertToString(inputValue.value);
+            document.querySelectorAll<HTMLInputElement>(`input[name="${name.value}"]`).forEach((el) => {
+                if (el.form === radioRef.value?.form) {
+                    el.checked = el.value === checkedValue;
+                }
+            });
+        }
+
         async function onToggle(event: Event) {
             if (computedDisabled.value || computedReadonly.value) {
                 return;
             }
 
             const beforeChangeFn = beforeChange.value;
+            const toChecked = (event.target as HTMLInputElement).checked;
 
             if (beforeChangeFn) {
+                restoreChecked();
                 const result = await beforeChangeFn(inputValue.value, radioValue.value, radioValue.value);
                 if (!result) {
                     return;
@@ -193,7 +205,7 @@ export default defineComponent({
             }
             inputValue.value = radioValue.value;
             emit('change', event);
-            emit('toggle', (event.target as HTMLInputElement).checked);
+            emit('toggle', toChecked);
         }
 
         function onFocus(e: FocusEvent) {
diff --git a/packages/vlossom/src/components/vs-switch/VsSwitch.vue b/packages/vlossom/src/components/vs-switch/VsSwitch.vue
index ae80344..11f3038 100644
--- a/packages/vlossom/src/components/vs-switch/VsSwitch.vue
+++ b/packages/vlossom/src/components/vs-switch/VsSwitch.vue
@@ -209,17 +209,22 @@ export default defineComponent({
                 return;
             }
 
-            const toValue = getUpdatedValue(!isChecked.value);
+            const toChecked = !isChecked.value;
 
             const beforeChangeFn = beforeChange.value;
             if (beforeChangeFn) {
-                const result = await beforeChangeFn(inputValue.value, toValue);
+                // the browser has already toggled the input, but the guard decides
+                if (switchRef.value) {
+                    switchRef.value.checked = isChecked.value;
+                }
+                const result = await beforeChangeFn(inputValue.value, getUpdatedValue(toChecked));
                 if (!result) {
                     return;
                 }
             }
 
-            inputValue.value = toValue;
+            // the value may have been updated by others while the guard was pending
+            inputValue.value = getUpdatedValue(toChecked);
         }
 
         function onFocus(e: FocusEvent) {
-- 
2.43.0


From 863fa53859210c4db6ecc66855f21929d6640ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:22:43 +0000
Subject: [PATCH 13/52] fix: close exactly the requested overlay and drop
 overlays unmounted while open

---
 .../src/components/vs-modal/VsModal.vue       | 30 +++++++++++++++++--
 .../overlay-callback-composable.ts            |  9 +++++-
 .../src/plugins/modal-plugin/modal-plugin.ts  |  5 ++--
 3 files changed, 37 insertions(+), 7 deletions(-)

diff --git a/packages/vlossom/src/components/vs-modal/VsModal.vue b/packages/vlossom/src/components/vs-modal/VsModal.vue
index 0176899..bc8d8b9 100644
--- a/packages/vlossom/src/components/vs-modal/VsModal.vue
+++ b/packages/vlossom/src/components/vs-modal/VsModal.vue
@@ -1,8 +1,19 @@
 <script lang="ts">
-import { defineComponent, ref, toRefs, watch, computed, type Component, type PropType } from 'vue';
+import {
+    defineComponent,
+    ref,
+    toRefs,
+    watch,
+    computed,
+    onMounted,
+    onBeforeUnmount,
+    type Component,
+    type PropType,
+} from 'vue';
 import { VsComponent, OVERLAY_CLOSE, type SizeProp } from '@/declaration';
 import { getColorSchemeProps, getStyleSetProps } from '@/props';
 import { getOverlayProps } from '@/props';
+import { useModalContainerStore, useOverlayCallbackStore } from '@/stores';
 import type { VsModalNodeStyleSet } from './types';
 import { useVlossom } from '@/framework';
 
@@ -32,7 +43,7 @@ export default defineComponent({
         const $vs = useVlossom();
         const { modelValue, container, callbacks } = toRefs(props);
 
-        const isOpen = ref(modelValue.value);
+        const isOpen = ref(false);
         const modalId = ref('');
 
         const modalOptions = computed(() => {
@@ -53,7 +64,7 @@ export default defineComponent({
             }
             if (!o) {
                 const closed = await $vs.modal.closeWithId(container.value, modalId.value);
-                if (!closed) {
+                if (!closed && isOpen.value) {
                     emit('update:modelValue', true);
                 }
                 return;
@@ -71,6 +82,19 @@ export default defineComponent({
             }
         });
 
+        onMounted(() => {
+            if (modelValue.value) {
+                isOpen.value = true;
+            }
+        });
+
+        onBeforeUnmount(() => {
+            if (isOpen.value && modalId.value) {
+                useModalContainerStore().remove(container.value, modalId.value);
+                useOverlayCallbackStore().remove(modalId.value);
+            }
+        });
+
         return () => null;
     },
 });
diff --git a/packages/vlossom/src/composables/overlay-callback/overlay-callback-composable.ts b/packages/vlossom/src/composables/overlay-callback/overlay-callback-composable.ts
index 9617417..00cb060 100644
--- a/packages/vlossom/src/composables/overlay-callback/overlay-callback-composable.ts
+++ b/packages/vlossom/src/composables/overlay-callback/overlay-callback-composable.ts
@@ -1,4 +1,4 @@
-import { computed, type Ref, ref, watch } from 'vue';
+import { computed, onScopeDispose, type Ref, ref, watch } from 'vue';
 import { useOverlayCallbackStore } from '@/stores';
 import { stringUtil } from '@/utils';
 import { ANIMATION_DURATION, type OverlayCallbacks } from '@/declaration';
@@ -32,5 +32,12 @@ export function useOverlayCallback(id: Ref<string>, callbacks: Ref<OverlayCallba
         }
     });
 
+    // an overlay unmounted while it is active must not stay in the stack
+    onScopeDispose(() => {
+        if (isActivated.value) {
+            overlayCallbackStore.remove(overlayId.value);
+        }
+    }, true);
+
     return { overlayId, isActivated, isUnmounting, activate, deactivate };
 }
diff --git a/packages/vlossom/src/plugins/modal-plugin/modal-plugin.ts b/packages/vlossom/src/plugins/modal-plugin/modal-plugin.ts
index 451be6b..568a526 100644
--- a/packages/vlossom/src/plugins/modal-plugin/modal-plugin.ts
+++ b/packages/vlossom/src/plugins/modal-plugin/modal-plugin.ts
@@ -59,10 +59,9 @@ export function createModalPlugin(): ModalPlugin {
                 return false;
             }
 
-            modalStore.pop(container);
+            modalStore.remove(container, last.id);
 
-            const lastOverlayId = overlayCallbackStore.getLastOverlayId();
-            overlayCallbackStore.remove(lastOverlayId);
+            overlayCallbackStore.remove(last.id);
             return true;
         },
 
-- 
2.43.0


From 32d84fe15492764b282be2eb85f9fede7d72cd2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:22:43 +0000
Subject: [PATCH 14/52] fix: answer the dialog whose button was pressed and
 settle dialogs without a container

---
 .../src/plugins/alert-plugin/alert-plugin.ts       | 12 ++++++++----
 .../src/plugins/confirm-plugin/confirm-plugin.ts   | 14 +++++++++-----
 .../src/plugins/prompt-plugin/prompt-plugin.ts     | 14 +++++++++-----
 3 files changed, 26 insertions(+), 14 deletions(-)

diff --git a/packages/vlossom/src/plugins/alert-plugin/alert-plugin.ts b/packages/vlossom/src/plugins/alert-plugin/alert-plugin.ts
index 620bc19..6d2b9a8 100644
--- a/packages/vlossom/src/plugins/alert-plugin/alert-plugin.ts
+++ b/packages/vlossom/src/plugins/alert-plugin/alert-plugin.ts
@@ -10,8 +10,7 @@ import type { AlertModalOptions, AlertPlugin, VsAlertStyleSet } from './types';
 export function createAlertPlugin(modalPlugin: ModalPlugin): AlertPlugin {
     const overlayCallback = useOverlayCallbackStore();
 
-    function handleOk() {
-        const overlayId = overlayCallback.getLastOverlayId();
+    function handleOk(overlayId: string) {
         if (!overlayId) {
             return;
         }
@@ -23,6 +22,8 @@ export function createAlertPlugin(modalPlugin: ModalPlugin): AlertPlugin {
             const { componentProps, ...modalOptions } = options;
             const { container = 'body', colorScheme, styleSet, okText = 'OK' } = modalOptions;
 
+            let modalId = '';
+
             const baseStyleSet: Ref<Partial<VsAlertStyleSet>> = ref({
                 $okButton: { minWidth: '8rem' },
             });
@@ -38,7 +39,7 @@ export function createAlertPlugin(modalPlugin: ModalPlugin): AlertPlugin {
             const okButton = vnodeUtils.createVsButton({
                 props: { colorScheme, styleSet: componentStyleSet.value.$okButton, primary: true },
                 content: okText,
-                onClickEvent: handleOk,
+                onClickEvent: () => handleOk(modalId),
             });
 
             const contents = h(VsRender, { content, componentProps });
@@ -46,7 +47,7 @@ export function createAlertPlugin(modalPlugin: ModalPlugin): AlertPlugin {
             const alert = h('div', { class: contentClass }, [contents, buttons]);
 
             return new Promise((resolve) => {
-                const modalId = modalPlugin.open(alert, {
+                modalId = modalPlugin.open(alert, {
                     ...modalOptions,
                     callbacks: {
                         ...modalOptions.callbacks,
@@ -68,6 +69,9 @@ export function createAlertPlugin(modalPlugin: ModalPlugin): AlertPlugin {
                     },
                     size: 'xs',
                 });
+                if (!modalId) {
+                    resolve();
+                }
             });
         },
     };
diff --git a/packages/vlossom/src/plugins/confirm-plugin/confirm-plugin.ts b/packages/vlossom/src/plugins/confirm-plugin/confirm-plugin.ts
index e80e152..cec26a7 100644
--- a/packages/vlossom/src/plugins/confirm-plugin/confirm-plugin.ts
+++ b/packages/vlossom/src/plugins/confirm-plugin/confirm-plugin.ts
@@ -11,8 +11,7 @@ import type { ConfirmModalOptions, ConfirmPlugin, VsConfirmStyleSet } from './ty
 export function createConfirmPlugin(modalPlugin: ModalPlugin): ConfirmPlugin {
     const overlayCallback = useOverlayCallbackStore();
 
-    function handleButton(eventName: typeof CONFIRM_OK | typeof CONFIRM_CANCEL) {
-        const overlayId = overlayCallback.getLastOverlayId();
+    function handleButton(overlayId: string, eventName: typeof CONFIRM_OK | typeof CONFIRM_CANCEL) {
         if (!overlayId) {
             return;
         }
@@ -31,6 +30,8 @@ export function createConfirmPlugin(modalPlugin: ModalPlugin): ConfirmPlugin {
                 swapButtons,
             } = modalOptions;
 
+            let modalId = '';
+
             const baseStyleSet: Ref<Partial<VsConfirmStyleSet>> = ref({
                 $okButton: { minWidth: '8rem' },
                 $cancelButton: { minWidth: '8rem' },
@@ -44,13 +45,13 @@ export function createConfirmPlugin(modalPlugin: ModalPlugin): ConfirmPlugin {
             const okButton = vnodeUtils.createVsButton({
                 props: { colorScheme, styleSet: componentStyleSet.value.$okButton, primary: true },
                 content: okText,
-                onClickEvent: () => handleButton(CONFIRM_OK),
+                onClickEvent: () => handleButton(modalId, CONFIRM_OK),
             });
 
             const cancelButton = vnodeUtils.createVsButton({
                 props: { colorScheme, styleSet: componentStyleSet.value.$cancelButton },
                 content: cancelText,
-                onClickEvent: () => handleButton(CONFIRM_CANCEL),
+                onClickEvent: () => handleButton(modalId, CONFIRM_CANCEL),
             });
 
             const buttonsClass = ['flex', 'w-full', 'items-center', 'justify-center', 'gap-2'];
@@ -68,7 +69,7 @@ export function createConfirmPlugin(modalPlugin: ModalPlugin): ConfirmPlugin {
             const confirm = h('div', { class: contentClass }, [contents, buttons]);
 
             return new Promise((resolve) => {
-                const modalId = modalPlugin.open(confirm, {
+                modalId = modalPlugin.open(confirm, {
                     ...modalOptions,
                     callbacks: {
                         ...modalOptions.callbacks,
@@ -94,6 +95,9 @@ export function createConfirmPlugin(modalPlugin: ModalPlugin): ConfirmPlugin {
                     },
                     size: 'xs',
                 });
+                if (!modalId) {
+                    resolve(false);
+                }
             });
         },
     };
diff --git a/packages/vlossom/src/plugins/prompt-plugin/prompt-plugin.ts b/packages/vlossom/src/plugins/prompt-plugin/prompt-plugin.ts
index d75b8a8..1c8a1c5 100644
--- a/packages/vlossom/src/plugins/prompt-plugin/prompt-plugin.ts
+++ b/packages/vlossom/src/plugins/prompt-plugin/prompt-plugin.ts
@@ -10,8 +10,7 @@ import { vnodeUtils } from './../utils/vnode-utils';
 export function createPromptPlugin(modalPlugin: ModalPlugin): PromptPlugin {
     const overlayCallback = useOverlayCallbackStore();
 
-    function handleButton(eventName: typeof PROMPT_OK | typeof PROMPT_CANCEL) {
-        const overlayId = overlayCallback.getLastOverlayId();
+    function handleButton(overlayId: string, eventName: typeof PROMPT_OK | typeof PROMPT_CANCEL) {
         if (!overlayId) {
             return;
         }
@@ -31,6 +30,8 @@ export function createPromptPlugin(modalPlugin: ModalPlugin): PromptPlugin {
                 input: inputOptions,
             } = modalOptions;
 
+            let modalId = '';
+
             const inputRef = ref<VsInputRef | null>(null);
             const inputValue = ref<VsInputValueType>(inputOptions?.initialValue ?? null);
 
@@ -51,12 +52,12 @@ export function createPromptPlugin(modalPlugin: ModalPlugin): PromptPlugin {
             const okButton = vnodeUtils.createVsButton({
                 props: { colorScheme, styleSet: componentStyleSet.value.$okButton, primary: true },
                 content: okText,
-                onClickEvent: () => handleButton(PROMPT_OK),
+                onClickEvent: () => handleButton(modalId, PROMPT_OK),
             });
             const cancelButton = vnodeUtils.createVsButton({
                 props: { colorScheme, styleSet: componentStyleSet.value.$cancelButton },
                 content: cancelText,
-                onClickEvent: () => handleButton(PROMPT_CANCEL),
+                onClickEvent: () => handleButton(modalId, PROMPT_CANCEL),
             });
             const buttons = h(
                 'div',
@@ -87,7 +88,7 @@ export function createPromptPlugin(modalPlugin: ModalPlugin): PromptPlugin {
             };
 
             return new Promise((resolve) => {
-                const modalId = modalPlugin.open(prompt, {
+                modalId = modalPlugin.open(prompt, {
                     ...modalOptions,
                     callbacks: {
                         ...modalOptions.callbacks,
@@ -121,6 +122,9 @@ export function createPromptPlugin(modalPlugin: ModalPlugin): PromptPlugin {
                     },
                     size: 'xs',
                 });
+                if (!modalId) {
+                    resolve(null);
+                }
             });
         },
     };
-- 
2.43.0


From e3b129bb03fd560c39c4ac5fe3d024f03993cd10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:26:44 +0000
Subject: [PATCH 15/52] fix: show overlays in containers that are created later
 or replaced

---
 packages/vlossom/src/framework/OverlayWrapper.vue         | 6 +++---
 packages/vlossom/src/plugins/toast-plugin/toast-plugin.ts | 8 ++++----
 packages/vlossom/src/stores/overlay-container-store.ts    | 7 +++++--
 3 files changed, 12 insertions(+), 9 deletions(-)

diff --git a/packages/vlossom/src/framework/OverlayWrapper.vue b/packages/vlossom/src/framework/OverlayWrapper.vue
index c9093ef..2bffe4f 100644
--- a/packages/vlossom/src/framework/OverlayWrapper.vue
+++ b/packages/vlossom/src/framework/OverlayWrapper.vue
@@ -1,7 +1,7 @@
 <template>
     <div id="vs-overlay-wrapper">
-        <template v-for="view in overlayViews" :key="view.container">
-            <Teleport :to="view.container">
+        <template v-for="[id, view] in overlayViews" :key="id">
+            <Teleport :to="view.element || view.container">
                 <component :is="view.component" :container="view.container" />
             </Teleport>
         </template>
@@ -17,7 +17,7 @@ export default defineComponent({
     setup() {
         const overlayContainerStore = useOverlayContainerStore();
 
-        const overlayViews = computed(() => Array.from(overlayContainerStore.overlayViewMap.value.values()));
+        const overlayViews = computed(() => Array.from(overlayContainerStore.overlayViewMap.value.entries()));
 
         return {
             overlayViews,
diff --git a/packages/vlossom/src/plugins/toast-plugin/toast-plugin.ts b/packages/vlossom/src/plugins/toast-plugin/toast-plugin.ts
index cb27c5d..fabefbb 100644
--- a/packages/vlossom/src/plugins/toast-plugin/toast-plugin.ts
+++ b/packages/vlossom/src/plugins/toast-plugin/toast-plugin.ts
@@ -12,10 +12,6 @@ export function createToastPlugin(): ToastPlugin {
             const overlayContainerStore = useOverlayContainerStore();
             const toastStore = useToastContainerStore();
 
-            // mount ToastView to OverlayWrapper
-            const overlayId = `vs-toast-overlay-${container.replace('#', '')}`;
-            overlayContainerStore.push(overlayId, container, 'VsToastView');
-
             const containerElement: HTMLElement | null = document.querySelector(container);
 
             if (!containerElement) {
@@ -27,6 +23,10 @@ export function createToastPlugin(): ToastPlugin {
                 containerElement.style.position = 'relative';
             }
 
+            // mount ToastView to OverlayWrapper
+            const overlayId = `vs-toast-overlay-${container.replace('#', '')}`;
+            overlayContainerStore.push(overlayId, container, 'VsToastView');
+
             const toastInfo = createToastInfo(content, options);
             toastStore.push(container, toastInfo);
 
diff --git a/packages/vlossom/src/stores/overlay-container-store.ts b/packages/vlossom/src/stores/overlay-container-store.ts
index a65e3aa..651401e 100644
--- a/packages/vlossom/src/stores/overlay-container-store.ts
+++ b/packages/vlossom/src/stores/overlay-container-store.ts
@@ -3,6 +3,7 @@ import { readonly, ref, type Component, type Ref } from 'vue';
 export type OverlayView = {
     container: string;
     component: string | Component;
+    element?: Element | null;
 };
 
 export class OverlayContainerStore {
@@ -11,11 +12,13 @@ export class OverlayContainerStore {
     public overlayViewMap = readonly(this._overlayViewMap) as Readonly<Ref<Map<string, OverlayView>>>;
 
     public push(id: string, container: string, component: string | Component) {
-        if (this._overlayViewMap.value.has(id)) {
+        // the container element can be replaced while its view is kept
+        const element = document.querySelector(container);
+        if (this._overlayViewMap.value.get(id)?.element === element) {
             return;
         }
 
-        this._overlayViewMap.value.set(id, { container, component });
+        this._overlayViewMap.value.set(id, { container, component, element });
     }
 
     public clear() {
-- 
2.43.0


From 512fc0eea626bed493bf2037c24deb66d652b8c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:37:30 +0000
Subject: [PATCH 16/52] fix: keep the caller's own version source when a
 resolved ref is reused

---
 packages/vlossom-mcp/src/services/github-registry-service.ts | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/packages/vlossom-mcp/src/services/github-registry-service.ts b/packages/vlossom-mcp/src/services/github-registry-service.ts
index f367683..5c397f3 100644
--- a/packages/vlossom-mcp/src/services/github-registry-service.ts
+++ b/packages/vlossom-mcp/src/services/github-registry-service.ts
@@ -18,7 +18,7 @@ const composableCache = new Map<string, ComposableMeta[]>();
 const pluginCache = new Map<string, VlossomPluginMeta[]>();
 const publicComposableDirsCache = new Map<string, Promise<Set<string>>>();
 const tokenCache = new Map<string, CssToken[]>();
-const refCache = new Map<string, VersionContext>();
+const refCache = new Map<string, Pick<VersionContext, 'resolvedRef' | 'fallbackRef' | 'warnings'>>();
 const rawCache = new Map<string, Promise<string>>();
 const directoryCache = new Map<string, Promise<GitHubContentEntry[]>>();
 const GITHUB_FETCH_CONCURRENCY = 8;
@@ -398,7 +398,8 @@ export async function resolveGitHubVersionContext(context: VersionContext): Prom
                 );
             }
             refCache.set(cacheKey, {
-                ...resolved,
+                resolvedRef: resolved.resolvedRef,
+                fallbackRef: resolved.fallbackRef,
                 warnings: resolved.warnings.filter((warning) => !context.warnings.includes(warning)),
             });
             return resolved;
-- 
2.43.0


From 8ca1d7fdaf219e4ef63c6db7653487a3f51b7f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:37:49 +0000
Subject: [PATCH 17/52] fix: do not treat a failed GitHub read as missing data

---
 .../src/services/github-registry-service.ts   | 28 +++++++++++++------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/packages/vlossom-mcp/src/services/github-registry-service.ts b/packages/vlossom-mcp/src/services/github-registry-service.ts
index 5c397f3..5710181 100644
--- a/packages/vlossom-mcp/src/services/github-registry-service.ts
+++ b/packages/vlossom-mcp/src/services/github-registry-service.ts
@@ -326,6 +326,11 @@ async function fetchRawOptional(path: string, ref: string): Promise<string> {
     }
 }
 
+function emptyWhenNotFound(error: unknown): never[] {
+    if (isGitHubNotFound(error)) return [];
+    throw error;
+}
+
 function getComponentLookupKey(ref: string, name: string): string {
     return `${ref}:component:${name}`;
 }
@@ -403,8 +408,9 @@ export async function resolveGitHubVersionContext(context: VersionContext): Prom
                 warnings: resolved.warnings.filter((warning) => !context.warnings.includes(warning)),
             });
             return resolved;
-        } catch {
-            // try the next candidate ref
+        } catch (error) {
+            // try the next candidate ref only when this one does not exist
+            if (!isGitHubNotFound(error)) throw error;
         }
     }
 
@@ -531,7 +537,7 @@ export async function loadDirectives(versionContext: VersionContext): Promise<Di
     const cached = directiveCache.get(ref);
     if (cached) return cached;
 
-    const entries = await fetchGitHubDirectory(DIRECTIVES_PATH, ref).catch(() => []);
+    const entries = await fetchGitHubDirectory(DIRECTIVES_PATH, ref).catch(emptyWhenNotFound);
     const directives = await mapWithConcurrency(
         entries.filter((entry) => entry.type === 'dir' && entry.name.startsWith('vs-')),
         GITHUB_FETCH_CONCURRENCY,
@@ -605,7 +611,10 @@ async function loadPublicComposableDirs(ref: string): Promise<Set<string>> {
             }
             return dirs;
         })
-        .catch(() => new Set<string>());
+        .catch((error: unknown) => {
+            publicComposableDirsCache.delete(ref);
+            return new Set<string>(emptyWhenNotFound(error));
+        });
     publicComposableDirsCache.set(ref, promise);
     return promise;
 }
@@ -618,7 +627,7 @@ export async function loadComposables(versionContext: VersionContext): Promise<C
 
     const [publicDirs, entries] = await Promise.all([
         loadPublicComposableDirs(ref),
-        fetchGitHubDirectory(COMPOSABLES_PATH, ref).catch(() => []),
+        fetchGitHubDirectory(COMPOSABLES_PATH, ref).catch(emptyWhenNotFound),
     ]);
     const composables = await mapWithConcurrency(
         entries.filter((entry) => entry.type === 'dir' && !entry.name.includes('.') && entry.name !== '__tests__'),
@@ -691,7 +700,7 @@ export async function loadPlugins(versionContext: VersionContext): Promise<Vloss
     const cached = pluginCache.get(ref);
     if (cached) return cached;
 
-    const entries = await fetchGitHubDirectory(PLUGINS_PATH, ref).catch(() => []);
+    const entries = await fetchGitHubDirectory(PLUGINS_PATH, ref).catch(emptyWhenNotFound);
     const plugins = await mapWithConcurrency(
         entries.filter((entry) => entry.type === 'dir' && entry.name.endsWith('-plugin')),
         GITHUB_FETCH_CONCURRENCY,
@@ -735,7 +744,10 @@ export async function loadSetupExample(versionContext: VersionContext): Promise<
             const fenced = extractFenceAfter(lines, setupIndex);
             return fenced || SETUP_EXAMPLE_FALLBACK;
         })
-        .catch(() => SETUP_EXAMPLE_FALLBACK);
+        .catch(() => {
+            setupExampleCache.delete(ref);
+            return SETUP_EXAMPLE_FALLBACK;
+        });
     setupExampleCache.set(ref, promise);
     return promise;
 }
@@ -785,7 +797,7 @@ export async function loadCssTokens(versionContext: VersionContext): Promise<Css
     const files = ['variables.css', 'palette.css', 'color-scheme-variables.css'];
     const map = new Map<string, CssToken>();
     for (const file of files) {
-        const css = await fetchRawCached(`${STYLES_PATH}/${file}`, ref).catch(() => '');
+        const css = await fetchRawOptional(`${STYLES_PATH}/${file}`, ref);
         for (const token of parseCssVars(css)) {
             const entry = map.get(token.name) ?? {
                 name: token.name,
-- 
2.43.0


From 5196e4990b105ea65a75f5d6d575961f8861c1f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:37:49 +0000
Subject: [PATCH 18/52] fix: name a component the same way however its id is
 written

---
 packages/vlossom-mcp/src/services/github-registry-service.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/vlossom-mcp/src/services/github-registry-service.ts b/packages/vlossom-mcp/src/services/github-registry-service.ts
index 5710181..d3332d2 100644
--- a/packages/vlossom-mcp/src/services/github-registry-service.ts
+++ b/packages/vlossom-mcp/src/services/github-registry-service.ts
@@ -338,8 +338,8 @@ function getComponentLookupKey(ref: string, name: string): string {
 function normalizeComponentName(name: string): { name: string; kebabName: string } | undefined {
     const trimmed = name.trim();
     if (!trimmed) return undefined;
-    const componentName = trimmed.includes('-') ? kebabToPascalCase(trimmed) : trimmed;
-    return { name: componentName, kebabName: toKebabCase(componentName) };
+    const kebabName = toKebabCase(trimmed);
+    return { name: kebabToPascalCase(kebabName), kebabName };
 }
 
 function parseComponentMeta(name: string, kebabName: string, readme: string, types: string): ComponentMeta {
-- 
2.43.0


From b803043b0872271d32f285fe36a691f7cae8e7ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:44:15 +0000
Subject: [PATCH 19/52] fix: sort typography, height and palette tokens into
 their own categories

---
 packages/vlossom-mcp/src/services/github-registry-service.ts | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/packages/vlossom-mcp/src/services/github-registry-service.ts b/packages/vlossom-mcp/src/services/github-registry-service.ts
index d3332d2..549591f 100644
--- a/packages/vlossom-mcp/src/services/github-registry-service.ts
+++ b/packages/vlossom-mcp/src/services/github-registry-service.ts
@@ -753,14 +753,15 @@ export async function loadSetupExample(versionContext: VersionContext): Promise<
 }
 
 function categorizeToken(name: string): string {
+    if (/--vs-(font-size|font-weight|line-height|white-space)/.test(name)) return 'typography';
+    if (/--vs-comp-height/.test(name)) return 'size';
     if (
-        /--vs-(white|black|gray|red|brown|orange|amber|yellow|lime|green|teal|cyan|blue|indigo|violet|purple|pink)-/.test(
+        /--vs-(?:(?:white|black)$|(?:white|black|gray|red|rose|brown|orange|amber|yellow|lime|green|emerald|teal|cyan|sky|blue|indigo|violet|purple|fuchsia|pink)-)/.test(
             name,
         )
     )
         return 'palette';
     if (/--vs-(comp|area|line|font|shadow)-/.test(name) || /--vs-cs-/.test(name)) return 'color-scheme';
-    if (/--vs-(font-size|font-weight|line-height|white-space)/.test(name)) return 'typography';
     if (/--vs-radius/.test(name)) return 'radius';
     if (/--vs-padding/.test(name)) return 'spacing';
     if (/--vs-(comp-height|size|default-comp)/.test(name)) return 'size';
-- 
2.43.0


From 2955b404e0bfba48041331df46c64c28067270ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:44:15 +0000
Subject: [PATCH 20/52] fix: read StyleSet interfaces that extend CSSProperties
 and use their declared keys

---
 .../internal/scaffold/style-set-scaffolder.ts    | 16 +++++++++++++---
 .../internal/validation/style-set-validator.ts   | 13 ++++++++++++-
 .../src/services/github-registry-service.ts      |  2 +-
 3 files changed, 26 insertions(+), 5 deletions(-)

diff --git a/packages/vlossom-mcp/src/internal/scaffold/style-set-scaffolder.ts b/packages/vlossom-mcp/src/internal/scaffold/style-set-scaffolder.ts
index a0bcce7..54dc943 100644
--- a/packages/vlossom-mcp/src/internal/scaffold/style-set-scaffolder.ts
+++ b/packages/vlossom-mcp/src/internal/scaffold/style-set-scaffolder.ts
@@ -23,6 +23,14 @@ function varName(componentName: string): string {
     return `${componentName.charAt(0).toLowerCase()}${componentName.slice(1)}StyleSet`;
 }
 
+// A child StyleSet is written under the key the interface declares for it.
+function childRefKeys(raw: string, ref: string): string[] {
+    const declared = [...raw.matchAll(/([\w$]+)\s*\?\s*:\s*(?:Omit\s*<\s*)?(Vs\w+StyleSet)/g)]
+        .filter((match) => match[2] === ref)
+        .map((match) => match[1] ?? '');
+    return declared.length > 0 ? declared : [childRefToKey(ref)];
+}
+
 export async function scaffoldStyleSet(
     input: StyleSetScaffoldInput,
     versionContext: VersionContext,
@@ -63,8 +71,10 @@ export async function scaffoldStyleSet(
         lines.push('  },');
     }
 
-    for (const ref of meta.styleSet.childRefs) {
-        const key = childRefToKey(ref);
+    const childRefs = meta.styleSet.childRefs.flatMap((ref) =>
+        childRefKeys(meta.styleSet.raw, ref).map((key) => ({ key, type: ref })),
+    );
+    for (const { key, type: ref } of childRefs) {
         lines.push(`  ${key}: {`);
         lines.push(`    // Nested ${ref} StyleSet`);
         lines.push('  },');
@@ -81,7 +91,7 @@ export async function scaffoldStyleSet(
             `Requirements context: ${input.description}`,
         ],
         availableVariables: variableKeys,
-        childRefs: meta.styleSet.childRefs.map((ref) => ({ key: childRefToKey(ref), type: ref })),
+        childRefs,
         code: lines.join('\n'),
         styleSetInterface: meta.styleSet.raw,
     };
diff --git a/packages/vlossom-mcp/src/internal/validation/style-set-validator.ts b/packages/vlossom-mcp/src/internal/validation/style-set-validator.ts
index 39b3110..e79e070 100644
--- a/packages/vlossom-mcp/src/internal/validation/style-set-validator.ts
+++ b/packages/vlossom-mcp/src/internal/validation/style-set-validator.ts
@@ -165,6 +165,14 @@ function interfaceTopLevelKeys(raw: string): Set<string> {
     return keys;
 }
 
+function acceptsCssProperties(raw: string): boolean {
+    return /^[^{]*\bextends\b[^{]*\bCSSProperties\b/.test(raw);
+}
+
+function isCssPropertyKey(key: string): boolean {
+    return !key.startsWith('$') && !/StyleSet$/.test(key) && key !== 'variables' && key !== 'component';
+}
+
 function cssVariableNames(code: string): KeyOccurrence[] {
     return [...code.matchAll(/--[A-Za-z0-9_-]+/g)].map((match) => ({
         key: match[0] ?? '',
@@ -180,7 +188,10 @@ function validateInterfaceKeys(code: string, meta: ComponentMeta): VlossomValida
     const allowedVariables = new Set(Object.keys(meta.styleSet.variables));
 
     for (const occurrence of topLevelKeys) {
-        if (!allowedTopLevel.has(occurrence.key)) {
+        if (
+            !allowedTopLevel.has(occurrence.key) &&
+            !(acceptsCssProperties(meta.styleSet.raw) && isCssPropertyKey(occurrence.key))
+        ) {
             issues.push(
                 issue(
                     'STYLESET_INTERFACE_KEY',
diff --git a/packages/vlossom-mcp/src/services/github-registry-service.ts b/packages/vlossom-mcp/src/services/github-registry-service.ts
index 549591f..4b20478 100644
--- a/packages/vlossom-mcp/src/services/github-registry-service.ts
+++ b/packages/vlossom-mcp/src/services/github-registry-service.ts
@@ -211,7 +211,7 @@ function braceDelta(line: string): number {
 
 function extractStyleSetInterface(content: string, componentName: string): string {
     const interfaceName = `${componentName}StyleSet`;
-    const match = new RegExp(String.raw`export\s+interface\s+${interfaceName}\s*\{`).exec(content);
+    const match = new RegExp(String.raw`export\s+interface\s+${interfaceName}\b[^{]*\{`).exec(content);
     if (!match) return '';
 
     const startIndex = match.index + match[0].length - 1;
-- 
2.43.0


From de1455f496a69c1ac788f6250c09d54d3f8e7fed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:44:15 +0000
Subject: [PATCH 21/52] fix: report StyleSet keys on the line they are written
 on

---
 .../vlossom-mcp/src/internal/validation/style-set-validator.ts  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/vlossom-mcp/src/internal/validation/style-set-validator.ts b/packages/vlossom-mcp/src/internal/validation/style-set-validator.ts
index e79e070..3579259 100644
--- a/packages/vlossom-mcp/src/internal/validation/style-set-validator.ts
+++ b/packages/vlossom-mcp/src/internal/validation/style-set-validator.ts
@@ -134,7 +134,7 @@ function keysFromObject(code: string, openBraceIndex: number): KeyOccurrence[] {
         if (depth === 1) {
             const match = /^\s*(?:"([^"]+)"|'([^']+)'|([A-Za-z_$][\w$]*))\s*:/.exec(line);
             const key = match?.[1] ?? match?.[2] ?? match?.[3];
-            if (key) keys.push({ key, line: startLine + i + 1 });
+            if (key) keys.push({ key, line: startLine + i });
         }
 
         depth += braceDelta(line);
-- 
2.43.0


From f5d341feccf6db1fe6d7f56913d02e6b1cb0d329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:44:15 +0000
Subject: [PATCH 22/52] fix: do not read attribute values as attributes or tag
 ends

---
 .../vlossom-mcp/src/internal/validation/sfc-validator.ts    | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/packages/vlossom-mcp/src/internal/validation/sfc-validator.ts b/packages/vlossom-mcp/src/internal/validation/sfc-validator.ts
index b549065..62c2217 100644
--- a/packages/vlossom-mcp/src/internal/validation/sfc-validator.ts
+++ b/packages/vlossom-mcp/src/internal/validation/sfc-validator.ts
@@ -66,7 +66,7 @@ function extractVlossomImportEntries(code: string): Array<{ name: string; line:
 
 function extractTags(code: string): Array<{ tag: string; body: string; line: number }> {
     const tags: Array<{ tag: string; body: string; line: number }> = [];
-    const pattern = /<\s*(vs-[a-z0-9-]+|Vs[A-Z][A-Za-z0-9]*)\b([^>]*)>/g;
+    const pattern = /<\s*(vs-[a-z0-9-]+|Vs[A-Z][A-Za-z0-9]*)\b((?:"[^"]*"|'[^']*'|[^>"'])*)>/g;
     for (const match of code.matchAll(pattern)) {
         const rawTag = match[1] ?? '';
         tags.push({
@@ -186,7 +186,9 @@ function validatePropsAndEvents(meta: ComponentMeta, body: string, line: number)
         providedProps.add(match[1] ? kebabToCamelCase(match[1]) : 'modelValue');
     }
 
-    for (const match of body.matchAll(attrPattern)) {
+    // Words inside attribute values are not attributes.
+    const names = body.replace(/=\s*(?:"[^"]*"|'[^']*')/g, '=""');
+    for (const match of names.matchAll(attrPattern)) {
         const raw = match[1] ?? '';
         if (!raw || raw.startsWith('#')) continue;
         if (raw.startsWith('@')) {
-- 
2.43.0


From 3d72db059360cac59e1789a024a977a96d288c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:44:15 +0000
Subject: [PATCH 23/52] fix: check a slot against the component it is passed to

---
 .../src/internal/validation/sfc-validator.ts  | 50 ++++++++++++-------
 1 file changed, 33 insertions(+), 17 deletions(-)

diff --git a/packages/vlossom-mcp/src/internal/validation/sfc-validator.ts b/packages/vlossom-mcp/src/internal/validation/sfc-validator.ts
index 62c2217..a91573c 100644
--- a/packages/vlossom-mcp/src/internal/validation/sfc-validator.ts
+++ b/packages/vlossom-mcp/src/internal/validation/sfc-validator.ts
@@ -249,27 +249,43 @@ function validatePropsAndEvents(meta: ComponentMeta, body: string, line: number)
     return issues;
 }
 
+// A slot template belongs to the innermost Vlossom component around it.
+function extractSlotUses(code: string): Array<{ rawTag: string; slot: string; line: number }> {
+    const uses: Array<{ rawTag: string; slot: string; line: number }> = [];
+    const open: string[] = [];
+    const pattern = /<(\/?)\s*(template|vs-[a-z0-9-]+|Vs[A-Z][A-Za-z0-9]*)\b((?:"[^"]*"|'[^']*'|[^>"'])*)>/g;
+    for (const match of code.matchAll(pattern)) {
+        const tag = match[2] ?? '';
+        const body = match[3] ?? '';
+        if (tag === 'template') {
+            const slot = match[1] ? undefined : /^\s+#([\w-]+)/.exec(body)?.[1];
+            const owner = open[open.length - 1];
+            if (slot && owner) uses.push({ rawTag: owner, slot, line: lineNumber(code, match.index ?? 0) });
+        } else if (match[1]) {
+            const index = open.lastIndexOf(tag);
+            if (index !== -1) open.length = index;
+        } else if (!body.endsWith('/')) {
+            open.push(tag);
+        }
+    }
+    return uses;
+}
+
 async function validateSlots(code: string, versionContext: VersionContext): Promise<VlossomValidationIssue[]> {
     const issues: VlossomValidationIssue[] = [];
-    const componentBlockPattern = /<\s*(vs-[a-z0-9-]+|Vs[A-Z][A-Za-z0-9]*)\b[^>]*>([\s\S]*?)<\/\s*\1\s*>/g;
-    for (const match of code.matchAll(componentBlockPattern)) {
-        const rawTag = match[1] ?? '';
+    for (const { rawTag, slot, line } of extractSlotUses(code)) {
         const meta = await getComponentMeta(rawTag.includes('-') ? kebabToPascalCase(rawTag) : rawTag, versionContext);
         if (!meta) continue;
-        const allowed = new Set(meta.slots.map((slot) => slot.name));
-        const body = match[2] ?? '';
-        for (const slotMatch of body.matchAll(/<template\s+#([\w-]+)/g)) {
-            const slot = slotMatch[1] ?? '';
-            if (!allowed.has(slot)) {
-                issues.push(
-                    issue(
-                        'SLOT_EXISTS',
-                        `${meta.name} does not declare slot '${slot}'.`,
-                        `Use one of: ${[...allowed].join(', ') || '(no declared slots)'}.`,
-                        lineNumber(code, (match.index ?? 0) + (slotMatch.index ?? 0)),
-                    ),
-                );
-            }
+        const allowed = new Set(meta.slots.map((entry) => entry.name));
+        if (!allowed.has(slot)) {
+            issues.push(
+                issue(
+                    'SLOT_EXISTS',
+                    `${meta.name} does not declare slot '${slot}'.`,
+                    `Use one of: ${[...allowed].join(', ') || '(no declared slots)'}.`,
+                    line,
+                ),
+            );
         }
     }
     return issues;
-- 
2.43.0


From 81ada68c57e55ad05f20851666a6a64cc59d39db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:51:12 +0000
Subject: [PATCH 24/52] fix: accept listeners for events documented in kebab
 case

---
 packages/vlossom-mcp/src/internal/validation/sfc-validator.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/vlossom-mcp/src/internal/validation/sfc-validator.ts b/packages/vlossom-mcp/src/internal/validation/sfc-validator.ts
index a91573c..1e6b69f 100644
--- a/packages/vlossom-mcp/src/internal/validation/sfc-validator.ts
+++ b/packages/vlossom-mcp/src/internal/validation/sfc-validator.ts
@@ -178,7 +178,7 @@ function validateVModel(meta: ComponentMeta, body: string, line: number): Vlosso
 function validatePropsAndEvents(meta: ComponentMeta, body: string, line: number): VlossomValidationIssue[] {
     const issues: VlossomValidationIssue[] = [];
     const propNames = new Set(meta.props.map((prop) => prop.name));
-    const eventNames = new Set(meta.events.map((event) => event.name));
+    const eventNames = new Set(meta.events.map((event) => kebabToCamelCase(event.name)));
     const providedProps = new Set<string>();
     const attrPattern = /(?:^|\s)([@:]?[\w:-]+)(?=\s*(?:=|\s|$))/g;
 
-- 
2.43.0


From fbaffbf1ef20e02ff3d5a5688e500c71f0fe2e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:53:04 +0000
Subject: [PATCH 25/52] fix: find inline styles after an attribute value
 holding a tag end

---
 .../src/internal/validation/vlossom-first-validator.ts         | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/packages/vlossom-mcp/src/internal/validation/vlossom-first-validator.ts b/packages/vlossom-mcp/src/internal/validation/vlossom-first-validator.ts
index 77810a2..22733c1 100644
--- a/packages/vlossom-mcp/src/internal/validation/vlossom-first-validator.ts
+++ b/packages/vlossom-mcp/src/internal/validation/vlossom-first-validator.ts
@@ -106,7 +106,8 @@ function detectVlossomInlineStyles(code: string, mode: VlossomFirstMode): Vlosso
     // a Vlossom component. We only flag inline strings; `:style` bindings can be
     // legitimate (e.g. computed CSS variable maps), so they are left alone.
     const issues: VlossomValidationIssue[] = [];
-    const inlineStylePattern = /<\s*(vs-[a-z0-9-]+|Vs[A-Z][A-Za-z0-9]*)\b[^>]*\sstyle\s*=\s*["'][^"']*["']/g;
+    const inlineStylePattern =
+        /<\s*(vs-[a-z0-9-]+|Vs[A-Z][A-Za-z0-9]*)\b(?:"[^"]*"|'[^']*'|[^>"'])*?\sstyle\s*=\s*(?:"[^"]*"|'[^']*')/g;
     for (const match of code.matchAll(inlineStylePattern)) {
         const component = match[1] ?? '';
         issues.push({
-- 
2.43.0


From 7655a706350a8e3b88d2c6b734b0bef2e83e1e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:16:10 +0000
Subject: [PATCH 26/52] fix: start ordering a newly chosen table column in
 ascending order

---
 .../components/vs-table/composables/table-sort-composable.ts   | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/packages/vlossom/src/components/vs-table/composables/table-sort-composable.ts b/packages/vlossom/src/components/vs-table/composables/table-sort-composable.ts
index f31b0d2..fbaf312 100644
--- a/packages/vlossom/src/components/vs-table/composables/table-sort-composable.ts
+++ b/packages/vlossom/src/components/vs-table/composables/table-sort-composable.ts
@@ -36,7 +36,8 @@ export function useTableSort(columns: Ref<VsTableColumnDef[]>) {
         if (!targetColumn) {
             return;
         }
-        const current: VsTableSortType = sortType.value ?? VsTableSortType.NONE;
+        const isSameColumn = sortColumn.value?.key === columnKey;
+        const current: VsTableSortType = isSameColumn ? sortType.value : VsTableSortType.NONE;
         const next: VsTableSortType = (current + 1) % SORT_TYPE_COUNT;
 
         sortType.value = next;
-- 
2.43.0


From b8bf7eceffc1b3ba91cc9d7832605d6a80db07f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:16:10 +0000
Subject: [PATCH 27/52] fix: build table rows from the items that were given
 last

---
 .../src/components/vs-table/models/table-cell-builder.ts        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/vlossom/src/components/vs-table/models/table-cell-builder.ts b/packages/vlossom/src/components/vs-table/models/table-cell-builder.ts
index 5add0f2..49cd7a2 100644
--- a/packages/vlossom/src/components/vs-table/models/table-cell-builder.ts
+++ b/packages/vlossom/src/components/vs-table/models/table-cell-builder.ts
@@ -29,7 +29,7 @@ export class TableCellBuilder {
     }
 
     public updateItems(items: VsTableItem[]): TableCellBuilder {
-        if (objectUtil.isEqual(this.items, items)) {
+        if (this.items === items) {
             return this;
         }
         this.items = items;
-- 
2.43.0


From 33221bf5d0b61e4182edcb8a66a61b1cb8c1769c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:16:10 +0000
Subject: [PATCH 28/52] fix: stay on an existing table page when the number of
 pages shrinks

---
 .../components/vs-table/composables/table-composable.ts    | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/packages/vlossom/src/components/vs-table/composables/table-composable.ts b/packages/vlossom/src/components/vs-table/composables/table-composable.ts
index 928af2e..5ca39ac 100644
--- a/packages/vlossom/src/components/vs-table/composables/table-composable.ts
+++ b/packages/vlossom/src/components/vs-table/composables/table-composable.ts
@@ -207,6 +207,13 @@ export function useTable(
         initCells(matrix);
     });
 
+    // move to the last page when the current page no longer exists
+    watch(totalPages, (pageCount) => {
+        if (pageCount > 0 && page.value >= pageCount) {
+            page.value = pageCount - 1;
+        }
+    });
+
     watch(internalSelectedItems, (nextSelectedItems) => {
         cb?.updateSelectedItems(nextSelectedItems);
     });
-- 
2.43.0


From c845315ce78aa4adcfc96efbb65a826d2746a8bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:16:10 +0000
Subject: [PATCH 29/52] fix: follow the table page size bound by the parent
 after the user chose one

---
 .../components/vs-table/composables/table-composable.ts   | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/packages/vlossom/src/components/vs-table/composables/table-composable.ts b/packages/vlossom/src/components/vs-table/composables/table-composable.ts
index 5ca39ac..2b5d9b6 100644
--- a/packages/vlossom/src/components/vs-table/composables/table-composable.ts
+++ b/packages/vlossom/src/components/vs-table/composables/table-composable.ts
@@ -207,6 +207,14 @@ export function useTable(
         initCells(matrix);
     });
 
+    // follow the page size given by the parent even after the user has chosen one
+    watch(
+        () => rawPageSize?.value,
+        (next) => {
+            internalPageSize.value = next ?? Number.NaN;
+        },
+    );
+
     // move to the last page when the current page no longer exists
     watch(totalPages, (pageCount) => {
         if (pageCount > 0 && page.value >= pageCount) {
-- 
2.43.0


From e624ffdf953a819dc7e0a79966cb35ea162a7946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:21:38 +0000
Subject: [PATCH 30/52] fix: ask about table rows with their position among the
 items

---
 packages/vlossom/src/components/vs-table/VsTableBodyRow.vue | 2 +-
 .../vlossom/src/components/vs-table/VsTableCheckboxCell.vue | 6 +++---
 .../vlossom/src/components/vs-table/VsTableExpandCell.vue   | 6 +++---
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/packages/vlossom/src/components/vs-table/VsTableBodyRow.vue b/packages/vlossom/src/components/vs-table/VsTableBodyRow.vue
index 5aff692..b3beebf 100644
--- a/packages/vlossom/src/components/vs-table/VsTableBodyRow.vue
+++ b/packages/vlossom/src/components/vs-table/VsTableBodyRow.vue
@@ -99,7 +99,7 @@ export default defineComponent({
         const colorScheme = inject<ComputedRef<ColorScheme | undefined>>(TABLE_COLOR_SCHEME_TOKEN);
 
         const state = computed<UIState>(() => {
-            return stateFn.value(getRowItem(cells.value), rowIndex.value, items?.value);
+            return stateFn.value(getRowItem(cells.value), cells.value[0]?.rowIdx, items?.value);
         });
         const { stateClasses } = useStateClass(state);
 
diff --git a/packages/vlossom/src/components/vs-table/VsTableCheckboxCell.vue b/packages/vlossom/src/components/vs-table/VsTableCheckboxCell.vue
index 9e6d936..bc572f6 100644
--- a/packages/vlossom/src/components/vs-table/VsTableCheckboxCell.vue
+++ b/packages/vlossom/src/components/vs-table/VsTableCheckboxCell.vue
@@ -3,7 +3,7 @@
         <td class="vs-table-td" v-if="anySelectable" :style="cellStyle" @click.prevent.stop="selectRow(cells, $event)">
             <slot name="select" :item="getRowItem(cells)" :value="isSelected(cells)" :rowIdx>
                 <vs-checkbox
-                    v-if="isRowSelectable(cells, rowIdx)"
+                    v-if="isRowSelectable(cells)"
                     multiple
                     :color-scheme
                     :disabled="loading"
@@ -88,12 +88,12 @@ export default defineComponent({
             };
         });
 
-        function isRowSelectable(row: VsTableCell[], rowIdx: number): boolean {
+        function isRowSelectable(row: VsTableCell[]): boolean {
             if (!isVsTableBodyRow(row)) {
                 return false;
             }
             const item = getRowItem(row);
-            return selectable.value(item, rowIdx, items.value);
+            return selectable.value(item, row[0]?.rowIdx, items.value);
         }
 
         function isSelected(row: VsTableCell[]): boolean {
diff --git a/packages/vlossom/src/components/vs-table/VsTableExpandCell.vue b/packages/vlossom/src/components/vs-table/VsTableExpandCell.vue
index ed89ae0..5f1db09 100644
--- a/packages/vlossom/src/components/vs-table/VsTableExpandCell.vue
+++ b/packages/vlossom/src/components/vs-table/VsTableExpandCell.vue
@@ -2,7 +2,7 @@
     <template v-if="isVsTableBodyRow(cells)">
         <td class="vs-table-td vs-table-expand-handle" :style="cellStyle">
             <vs-button
-                v-if="isExpandable(cells, rowIdx)"
+                v-if="isExpandable(cells)"
                 :color-scheme
                 :disabled="loading"
                 :style-set="expandButtonStyleSet"
@@ -64,8 +64,8 @@ export default defineComponent({
             color: 'var(--vs-cs-font-colored)',
         }));
 
-        function isExpandable(cells: VsTableBodyCell[], rowIdx: number): boolean {
-            return expandable.value(getRowItem(cells), rowIdx, items.value);
+        function isExpandable(cells: VsTableBodyCell[]): boolean {
+            return expandable.value(getRowItem(cells), cells[0]?.rowIdx, items.value);
         }
 
         function expandRow(cells: VsTableCell[], event: MouseEvent): void {
-- 
2.43.0


From 211e6a9cb8635d456452c60e1f47a1319f80c7e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:24:28 +0000
Subject: [PATCH 31/52] fix: tick the table header only when every selectable
 item is selected

---
 .../vs-table/composables/table-select-composable.ts  | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/packages/vlossom/src/components/vs-table/composables/table-select-composable.ts b/packages/vlossom/src/components/vs-table/composables/table-select-composable.ts
index badfb84..3a382f3 100644
--- a/packages/vlossom/src/components/vs-table/composables/table-select-composable.ts
+++ b/packages/vlossom/src/components/vs-table/composables/table-select-composable.ts
@@ -1,4 +1,4 @@
-import { computed, ref, watch, type Ref } from 'vue';
+import { computed, ref, toRaw, watch, type Ref } from 'vue';
 import { objectUtil } from '@/utils';
 import type { VsTableItem } from './../types';
 
@@ -15,12 +15,12 @@ export function useTableSelect(
     const selectableItems = computed<VsTableItem[]>(() => {
         return items.value.filter(selectable.value);
     });
-    const selectedPartial = computed(() => {
-        return selectedItems.value.length > 0 && selectedItems.value.length < selectableItems.value.length;
-    });
     const selectedAll = computed(() => {
-        const selectableLength = selectableItems.value.length;
-        return selectableLength > 0 && selectedItems.value.length === selectableLength;
+        const selected = new Set(selectedItems.value.map(toRaw));
+        return selectableItems.value.length > 0 && selectableItems.value.every((item) => selected.has(toRaw(item)));
+    });
+    const selectedPartial = computed(() => {
+        return selectedItems.value.length > 0 && !selectedAll.value;
     });
 
     function toggleSelectAll(): void {
-- 
2.43.0


From e8279822ab2ccd17d0695032dcb61b5b1e73a4d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:42:13 +0000
Subject: [PATCH 32/52] fix: give every option of a list its own id

Ids were a hash of the label followed by the position, so the option 'p1' at
position 0 and the option 'p' at position 10 shared one id and choosing one
chose the other.
---
 .../src/composables/option-list/option-list-composable.ts       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/vlossom/src/composables/option-list/option-list-composable.ts b/packages/vlossom/src/composables/option-list/option-list-composable.ts
index 3a0a737..472c733 100644
--- a/packages/vlossom/src/composables/option-list/option-list-composable.ts
+++ b/packages/vlossom/src/composables/option-list/option-list-composable.ts
@@ -16,7 +16,7 @@ export function useOptionList(
             const value = getOptionValue(option);
 
             return {
-                id: stringUtil.hash(label + index), // unique id for each option
+                id: `${stringUtil.hash(label)}-${index}`, // unique id for each option
                 item: option,
                 label,
                 value,
-- 
2.43.0


From 5e33fa10b407372e00f4408149dd536f50d17f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:42:13 +0000
Subject: [PATCH 33/52] fix: keep marks and highlight of a select in step with
 its list

- The chosen options are looked up again when the options change position.
- The highlight is dropped when the list closes and kept when the highlighted
  option is chosen.
- Select-all is offered without a search field too.
---
 .../src/components/vs-select/VsSelect.vue     | 68 ++++++++++++-------
 1 file changed, 44 insertions(+), 24 deletions(-)

diff --git a/packages/vlossom/src/components/vs-select/VsSelect.vue b/packages/vlossom/src/components/vs-select/VsSelect.vue
index 9da6f90..3221ed3 100644
--- a/packages/vlossom/src/components/vs-select/VsSelect.vue
+++ b/packages/vlossom/src/components/vs-select/VsSelect.vue
@@ -53,9 +53,14 @@
                     :group-order
                     @click-item="selectOptionItem"
                 >
-                    <template #header v-if="isUsingSearch || $slots['options-header']">
-                        <div class="vs-select-search vs-select-focusable" data-focusable data-role="search">
-                            <vs-search-input v-if="isUsingSearch" ref="searchInputRef" v-bind="searchProps" :size />
+                    <template #header v-if="isUsingSearch || (multiple && selectAll) || $slots['options-header']">
+                        <div
+                            v-if="isUsingSearch"
+                            class="vs-select-search vs-select-focusable"
+                            data-focusable
+                            data-role="search"
+                        >
+                            <vs-search-input ref="searchInputRef" v-bind="searchProps" :size />
                         </div>
                         <div
                             v-if="multiple && selectAll"
@@ -84,7 +89,10 @@
                             :class="[
                                 'vs-select-option-wrap',
                                 'vs-select-focusable',
-                                { selected: isSelected(itemSlotProps.id) },
+                                {
+                                    selected: isSelected(itemSlotProps.id),
+                                    'vs-focusable-active': isOptionFocused(itemSlotProps.id),
+                                },
                             ]"
                             :style="getOptionStyleSet(itemSlotProps.id)"
                             :data-id="itemSlotProps.id"
@@ -461,13 +469,16 @@ export default defineComponent({
             }, 50);
         }
 
+        function isOptionFocused(optionId: string) {
+            return currentFocusableElement.value?.dataset?.['id'] === optionId;
+        }
+
         function getOptionStyleSet(optionId: string): CSSProperties {
             const { $focused = {}, $selected = {}, ...base } = componentStyleSet.value.$option ?? {};
-            const isOptionFocused = currentFocusableElement.value?.dataset?.['id'] === optionId;
             if (isSelected(optionId)) {
                 return objectUtil.assign(base, $selected);
             }
-            if (isOptionFocused) {
+            if (isOptionFocused(optionId)) {
                 return objectUtil.assign(base, $focused);
             }
             return base;
@@ -479,6 +490,7 @@ export default defineComponent({
             }
 
             removeMouseMoveListener();
+            updateFocusIndex(-1);
             isOpen.value = false;
             emit('close');
 
@@ -514,6 +526,27 @@ export default defineComponent({
             { deep: true },
         );
 
+        function syncSelectedOptionIds() {
+            if (inputValue.value === undefined || inputValue.value === null) {
+                selectedOptionIds.value = [];
+                return;
+            }
+
+            const isArrayMultiple = multiple.value && Array.isArray(inputValue.value);
+            const inputValueArray = isArrayMultiple ? inputValue.value : [inputValue.value];
+
+            selectedOptionIds.value = inputValueArray
+                .map((v: any) => {
+                    for (const option of computedOptions.value) {
+                        if (objectUtil.isEqual(option.value, v)) {
+                            return option.id;
+                        }
+                    }
+                    return null;
+                })
+                .filter((v: any) => v !== null);
+        }
+
         watch(
             inputValue,
             (newInputValue, oldInputValue) => {
@@ -521,28 +554,14 @@ export default defineComponent({
                     return;
                 }
 
-                if (newInputValue === undefined || newInputValue === null) {
-                    selectedOptionIds.value = [];
-                    return;
-                }
-
-                const isArrayMultiple = multiple.value && Array.isArray(inputValue.value);
-                const inputValueArray = isArrayMultiple ? inputValue.value : [inputValue.value];
-
-                selectedOptionIds.value = inputValueArray
-                    .map((v: any) => {
-                        for (const option of computedOptions.value) {
-                            if (objectUtil.isEqual(option.value, v)) {
-                                return option.id;
-                            }
-                        }
-                        return null;
-                    })
-                    .filter((v: any) => v !== null);
+                syncSelectedOptionIds();
             },
             { immediate: true },
         );
 
+        // the ids of the options change with their labels and positions
+        watch(computedOptions, syncSelectedOptionIds);
+
         watch([computedDisabled, computedReadonly], () => {
             closeOptions();
         });
@@ -578,6 +597,7 @@ export default defineComponent({
             openOptions,
             closeOptions,
             isSelected,
+            isOptionFocused,
             toggleSelectAll,
             isUsingSearch,
             searchProps,
-- 
2.43.0


From 7df7d9ea1289dec8b2d16fe4e9517a218222b826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:57:42 +0000
Subject: [PATCH 34/52] fix: stay on the current entry when there is none to
 move to

---
 .../vlossom/src/components/vs-tabs/VsTabs.vue    |  5 +++--
 .../list-index-selector-composable.ts            | 16 ++++++++++++----
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/packages/vlossom/src/components/vs-tabs/VsTabs.vue b/packages/vlossom/src/components/vs-tabs/VsTabs.vue
index 00864e7..84f8ff7 100644
--- a/packages/vlossom/src/components/vs-tabs/VsTabs.vue
+++ b/packages/vlossom/src/components/vs-tabs/VsTabs.vue
@@ -150,6 +150,7 @@ export default defineComponent({
             findActiveIndexForwardFrom,
             findActiveIndexBackwardFrom,
             selectIndex: selectTab,
+            moveTo,
             syncIndex,
             handleKeydown,
             isFirstEdge,
@@ -188,12 +189,12 @@ export default defineComponent({
 
         function goPrev() {
             const targetIndex = findActiveIndexBackwardFrom(selectedIndex.value - 1);
-            selectTab(targetIndex);
+            moveTo(targetIndex);
         }
 
         function goNext() {
             const targetIndex = findActiveIndexForwardFrom(selectedIndex.value + 1);
-            selectTab(targetIndex);
+            moveTo(targetIndex);
         }
 
         function calculateVisibleTabCount() {
diff --git a/packages/vlossom/src/composables/list-index-selector/list-index-selector-composable.ts b/packages/vlossom/src/composables/list-index-selector/list-index-selector-composable.ts
index 20e6cd2..f0550b5 100644
--- a/packages/vlossom/src/composables/list-index-selector/list-index-selector-composable.ts
+++ b/packages/vlossom/src/composables/list-index-selector/list-index-selector-composable.ts
@@ -107,6 +107,13 @@ export function useIndexSelector(
         return selectedIndex.value === lastActiveIndex;
     });
 
+    // stays where it is when there is nothing to move to
+    function moveTo(index: number) {
+        if (index !== NOT_SELECTED) {
+            selectIndex(index);
+        }
+    }
+
     function handleKeydown(e: KeyboardEvent, isVertical: boolean) {
         const keyMap = {
             prev: isVertical ? 'ArrowUp' : 'ArrowLeft',
@@ -118,19 +125,19 @@ export function useIndexSelector(
                 return;
             }
             e.preventDefault();
-            selectIndex(findActiveIndexBackwardFrom(selectedIndex.value - 1));
+            moveTo(findActiveIndexBackwardFrom(selectedIndex.value - 1));
         } else if (e.key === keyMap.next) {
             if (isLastEdge.value) {
                 return;
             }
             e.preventDefault();
-            selectIndex(findActiveIndexForwardFrom(selectedIndex.value + 1));
+            moveTo(findActiveIndexForwardFrom(selectedIndex.value + 1));
         } else if (e.key === 'Home') {
             e.preventDefault();
-            selectIndex(findActiveIndexForwardFrom(0));
+            moveTo(findActiveIndexForwardFrom(0));
         } else if (e.key === 'End') {
             e.preventDefault();
-            selectIndex(findActiveIndexBackwardFrom(list.value.length - 1));
+            moveTo(findActiveIndexBackwardFrom(list.value.length - 1));
         }
     }
 
@@ -152,6 +159,7 @@ export function useIndexSelector(
         findActiveIndexForwardFrom,
         findActiveIndexBackwardFrom,
         selectIndex,
+        moveTo,
         syncIndex,
         handleKeydown,
         isFirstEdge,
-- 
2.43.0


From 3f0a3a9675cf546dfbb6266e752aaac60daba91d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:57:42 +0000
Subject: [PATCH 35/52] fix: focus the chosen step after the steps were
 reordered

---
 packages/vlossom/src/components/vs-steps/VsSteps.vue | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/packages/vlossom/src/components/vs-steps/VsSteps.vue b/packages/vlossom/src/components/vs-steps/VsSteps.vue
index 1277ccb..71196d6 100644
--- a/packages/vlossom/src/components/vs-steps/VsSteps.vue
+++ b/packages/vlossom/src/components/vs-steps/VsSteps.vue
@@ -9,13 +9,13 @@
             <div class="vs-step-progress" :style="progressStyleSet" />
         </div>
         <ul
+            ref="stepsRef"
             role="tablist"
             :class="['vs-steps-list', { 'vs-steps-no-label': noLabel }]"
             :style="componentStyleSet.$steps"
         >
             <li
                 v-for="(step, index) in steps"
-                ref="stepRefs"
                 class="vs-step-item"
                 :key="step"
                 :class="[
@@ -121,7 +121,7 @@ export default defineComponent({
             additionalStyleSet,
         );
 
-        const stepRefs: Ref<HTMLElement[]> = ref([]);
+        const stepsRef: Ref<HTMLElement | null> = ref(null);
         const gapCount = computed(() => steps.value.length - 1);
 
         const {
@@ -175,7 +175,7 @@ export default defineComponent({
         }
 
         watch(selectedIndex, (index: number) => {
-            stepRefs.value[index]?.focus();
+            stepsRef.value?.querySelectorAll<HTMLElement>('.vs-step-item')[index]?.focus();
             emit('update:modelValue', index);
             emit('change', index);
         });
@@ -204,7 +204,7 @@ export default defineComponent({
             handleKeydown,
 
             // Refs
-            stepRefs,
+            stepsRef,
         };
     },
 });
-- 
2.43.0


From 4bd6d3d17e7ce29606901f7e43e2f1a9f1f3aa6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:27:23 +0000
Subject: [PATCH 36/52] fix: show one colour scheme on header and footer

---
 .../vlossom/src/components/vs-footer/VsFooter.vue    | 12 +++++++++---
 .../vlossom/src/components/vs-header/VsHeader.vue    | 12 +++++++++---
 2 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/packages/vlossom/src/components/vs-footer/VsFooter.vue b/packages/vlossom/src/components/vs-footer/VsFooter.vue
index 7390dad..b891d10 100644
--- a/packages/vlossom/src/components/vs-footer/VsFooter.vue
+++ b/packages/vlossom/src/components/vs-footer/VsFooter.vue
@@ -1,5 +1,11 @@
 <template>
-    <vs-bar :tag :class="['vs-footer', colorSchemeClass, classObj]" :style-set="componentStyleSet" :position>
+    <vs-bar
+        :tag
+        :class="['vs-footer', colorSchemeClass, classObj]"
+        :color-scheme="computedColorScheme || colorScheme"
+        :style-set="componentStyleSet"
+        :position
+    >
         <slot />
     </vs-bar>
 </template>
@@ -31,7 +37,7 @@ export default defineComponent({
     setup(props) {
         const { colorScheme, styleSet, primary, position, height, layout } = toRefs(props);
 
-        const { colorSchemeClass } = useColorScheme(componentName, colorScheme);
+        const { computedColorScheme, colorSchemeClass } = useColorScheme(componentName, colorScheme);
 
         const isPositioned = computed(() => position.value && ['absolute', 'fixed', 'sticky'].includes(position.value));
 
@@ -73,7 +79,7 @@ export default defineComponent({
             layoutStore.setFooter(footerLayout);
         });
 
-        return { colorSchemeClass, componentStyleSet, classObj, isLayoutChild, position };
+        return { computedColorScheme, colorSchemeClass, componentStyleSet, classObj, isLayoutChild, position };
     },
 });
 </script>
diff --git a/packages/vlossom/src/components/vs-header/VsHeader.vue b/packages/vlossom/src/components/vs-header/VsHeader.vue
index f16268f..34e8932 100644
--- a/packages/vlossom/src/components/vs-header/VsHeader.vue
+++ b/packages/vlossom/src/components/vs-header/VsHeader.vue
@@ -1,5 +1,11 @@
 <template>
-    <vs-bar :tag :class="['vs-header', colorSchemeClass, classObj]" :style-set="componentStyleSet" :position>
+    <vs-bar
+        :tag
+        :class="['vs-header', colorSchemeClass, classObj]"
+        :color-scheme="computedColorScheme || colorScheme"
+        :style-set="componentStyleSet"
+        :position
+    >
         <slot />
     </vs-bar>
 </template>
@@ -31,7 +37,7 @@ export default defineComponent({
     setup(props) {
         const { colorScheme, styleSet, primary, position, height, layout } = toRefs(props);
 
-        const { colorSchemeClass } = useColorScheme(componentName, colorScheme);
+        const { computedColorScheme, colorSchemeClass } = useColorScheme(componentName, colorScheme);
 
         const isPositioned = computed(() => position.value && ['absolute', 'fixed', 'sticky'].includes(position.value));
 
@@ -73,7 +79,7 @@ export default defineComponent({
             layoutStore.setHeader(headerLayout);
         });
 
-        return { colorSchemeClass, componentStyleSet, classObj, isLayoutChild, position };
+        return { computedColorScheme, colorSchemeClass, componentStyleSet, classObj, isLayoutChild, position };
     },
 });
 </script>
-- 
2.43.0


From 8322719f342afc80b0f8aff7ee19e0093134b080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:27:23 +0000
Subject: [PATCH 37/52] fix: give back the room of layout parts that are gone

---
 .../src/components/vs-drawer/VsDrawer.vue     | 30 +++++++++++--------
 .../src/components/vs-footer/VsFooter.vue     | 27 ++++++++++-------
 .../src/components/vs-header/VsHeader.vue     | 27 ++++++++++-------
 packages/vlossom/src/stores/layout-store.ts   | 17 +++++++++++
 4 files changed, 67 insertions(+), 34 deletions(-)

diff --git a/packages/vlossom/src/components/vs-drawer/VsDrawer.vue b/packages/vlossom/src/components/vs-drawer/VsDrawer.vue
index 40e7576..037cd79 100644
--- a/packages/vlossom/src/components/vs-drawer/VsDrawer.vue
+++ b/packages/vlossom/src/components/vs-drawer/VsDrawer.vue
@@ -45,7 +45,6 @@ import {
     toRefs,
     useTemplateRef,
     watch,
-    watchEffect,
     type ComputedRef,
     type PropType,
     type TemplateRef,
@@ -56,6 +55,7 @@ import {
     OVERLAY_CLOSE,
     OVERLAY_OPEN,
     VsComponent,
+    type DrawerLayout,
     type DrawerPlacement,
     type FocusableRef,
     type SizeProp,
@@ -195,17 +195,23 @@ export default defineComponent({
         const { isLayoutChild } = useLayoutChild(layout);
 
         const layoutStore = inject(LAYOUT_STORE_KEY, LayoutStore.getDefaultLayoutStore());
-        watchEffect(() => {
-            if (!isLayoutChild.value) {
-                return;
-            }
-            layoutStore.setDrawer({
-                isOpen: isOpen.value,
-                placement: placement.value,
-                size: drawerSize.value || DRAWER_SIZE.sm,
-                pushContainer: pushContainer.value,
-            });
-        });
+        const drawerLayout: ComputedRef<DrawerLayout> = computed(() => ({
+            isOpen: isOpen.value,
+            placement: placement.value,
+            size: drawerSize.value || DRAWER_SIZE.sm,
+            pushContainer: pushContainer.value,
+        }));
+        watch(
+            [isLayoutChild, drawerLayout],
+            ([isChild, drawer], _, onCleanup) => {
+                if (!isChild) {
+                    return;
+                }
+                layoutStore.setDrawer(drawer);
+                onCleanup(() => layoutStore.removeDrawer(drawer));
+            },
+            { immediate: true },
+        );
 
         const layoutStyles = computed(() => {
             if (!isLayoutChild.value) {
diff --git a/packages/vlossom/src/components/vs-footer/VsFooter.vue b/packages/vlossom/src/components/vs-footer/VsFooter.vue
index b891d10..a65adf6 100644
--- a/packages/vlossom/src/components/vs-footer/VsFooter.vue
+++ b/packages/vlossom/src/components/vs-footer/VsFooter.vue
@@ -11,7 +11,7 @@
 </template>
 
 <script lang="ts">
-import { computed, defineComponent, toRefs, type ComputedRef, inject, watchEffect } from 'vue';
+import { computed, defineComponent, toRefs, type ComputedRef, inject, watch } from 'vue';
 import { useColorScheme, useLayoutChild, useStyleSet } from '@/composables';
 import { VsComponent, LAYOUT_STORE_KEY, type BarLayout } from '@/declaration';
 import { getColorSchemeProps, getLayoutProps, getPositionProps, getStyleSetProps } from '@/props';
@@ -68,16 +68,21 @@ export default defineComponent({
         const { isLayoutChild } = useLayoutChild(layout);
 
         const layoutStore = inject(LAYOUT_STORE_KEY, LayoutStore.getDefaultLayoutStore());
-        watchEffect(() => {
-            if (!isLayoutChild.value) {
-                return;
-            }
-            const footerLayout: BarLayout = {
-                position: position.value || 'relative',
-                height: (componentStyleSet.value.height as string) || '3rem',
-            };
-            layoutStore.setFooter(footerLayout);
-        });
+        const footerLayout: ComputedRef<BarLayout> = computed(() => ({
+            position: position.value || 'relative',
+            height: (componentStyleSet.value.height as string) || '3rem',
+        }));
+        watch(
+            [isLayoutChild, footerLayout],
+            ([isChild, layout], _, onCleanup) => {
+                if (!isChild) {
+                    return;
+                }
+                layoutStore.setFooter(layout);
+                onCleanup(() => layoutStore.removeFooter(layout));
+            },
+            { immediate: true },
+        );
 
         return { computedColorScheme, colorSchemeClass, componentStyleSet, classObj, isLayoutChild, position };
     },
diff --git a/packages/vlossom/src/components/vs-header/VsHeader.vue b/packages/vlossom/src/components/vs-header/VsHeader.vue
index 34e8932..efef87c 100644
--- a/packages/vlossom/src/components/vs-header/VsHeader.vue
+++ b/packages/vlossom/src/components/vs-header/VsHeader.vue
@@ -11,7 +11,7 @@
 </template>
 
 <script lang="ts">
-import { computed, defineComponent, toRefs, type ComputedRef, inject, watchEffect } from 'vue';
+import { computed, defineComponent, toRefs, type ComputedRef, inject, watch } from 'vue';
 import { useColorScheme, useLayoutChild, useStyleSet } from '@/composables';
 import { VsComponent, LAYOUT_STORE_KEY, type BarLayout } from '@/declaration';
 import { getColorSchemeProps, getLayoutProps, getPositionProps, getStyleSetProps } from '@/props';
@@ -68,16 +68,21 @@ export default defineComponent({
         const { isLayoutChild } = useLayoutChild(layout);
 
         const layoutStore = inject(LAYOUT_STORE_KEY, LayoutStore.getDefaultLayoutStore());
-        watchEffect(() => {
-            if (!isLayoutChild.value) {
-                return;
-            }
-            const headerLayout: BarLayout = {
-                position: position.value || 'relative',
-                height: (componentStyleSet.value.height as string) || '3rem',
-            };
-            layoutStore.setHeader(headerLayout);
-        });
+        const headerLayout: ComputedRef<BarLayout> = computed(() => ({
+            position: position.value || 'relative',
+            height: (componentStyleSet.value.height as string) || '3rem',
+        }));
+        watch(
+            [isLayoutChild, headerLayout],
+            ([isChild, layout], _, onCleanup) => {
+                if (!isChild) {
+                    return;
+                }
+                layoutStore.setHeader(layout);
+                onCleanup(() => layoutStore.removeHeader(layout));
+            },
+            { immediate: true },
+        );
 
         return { computedColorScheme, colorSchemeClass, componentStyleSet, classObj, isLayoutChild, position };
     },
diff --git a/packages/vlossom/src/stores/layout-store.ts b/packages/vlossom/src/stores/layout-store.ts
index 2c5a2ba..5bcca68 100644
--- a/packages/vlossom/src/stores/layout-store.ts
+++ b/packages/vlossom/src/stores/layout-store.ts
@@ -26,6 +26,12 @@ export class LayoutStore {
         this._header.value = layout;
     }
 
+    public removeHeader(layout: BarLayout) {
+        if (objectUtil.isEqual(this._header.value, layout)) {
+            this._header.value = { position: 'relative', height: '' };
+        }
+    }
+
     public footer = computed(() => this._footer.value);
 
     public setFooter(layout: BarLayout) {
@@ -36,6 +42,12 @@ export class LayoutStore {
         this._footer.value = layout;
     }
 
+    public removeFooter(layout: BarLayout) {
+        if (objectUtil.isEqual(this._footer.value, layout)) {
+            this._footer.value = { position: 'relative', height: '' };
+        }
+    }
+
     public drawers = computed(() => this._drawers.value);
 
     public setDrawers(layouts: DrawerLayouts) {
@@ -54,4 +66,9 @@ export class LayoutStore {
             [layout.placement]: layout,
         };
     }
+    public removeDrawer(layout: DrawerLayout) {
+        if (objectUtil.isEqual(this._drawers.value[layout.placement], layout)) {
+            this.setDrawer({ isOpen: false, pushContainer: false, placement: layout.placement, size: '' });
+        }
+    }
 }
-- 
2.43.0


From 4ffb26c51939c6a9d15a502f1ffea43cf75e04ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:02:02 +0000
Subject: [PATCH 38/52] fix: a panel that disappears at once does not keep
 listening

appear() registers its scroll, resize and size observers one tick later.
When disappear() was called in between, they were registered all the same
and never removed.
---
 .../src/composables/positioning/positioning-composable.ts  | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/packages/vlossom/src/composables/positioning/positioning-composable.ts b/packages/vlossom/src/composables/positioning/positioning-composable.ts
index 67620d8..d561324 100644
--- a/packages/vlossom/src/composables/positioning/positioning-composable.ts
+++ b/packages/vlossom/src/composables/positioning/positioning-composable.ts
@@ -14,6 +14,7 @@ export function usePositioning(target: string, attachment: TemplateRef<HTMLEleme
     const computedPlacement: Ref<Placement | null> = ref(null);
     let throttledComputePosition: ((...args: any) => any) | null = null;
     let resizeObserver: ResizeObserver | null = null;
+    let appearance = 0;
 
     function getX(align: Alignment, left: number, right: number, width: number, attachmentWidth: number) {
         switch (align) {
@@ -111,9 +112,15 @@ export function usePositioning(target: string, attachment: TemplateRef<HTMLEleme
 
         // make the attachment visible
         isVisible.value = true;
+        const current = ++appearance;
 
         // for waiting the attachment to be mounted
         nextTick(() => {
+            // it has disappeared in the meantime
+            if (!isVisible.value || current !== appearance) {
+                return;
+            }
+
             try {
                 const targetElement = document.querySelector(target);
                 if (!targetElement || !attachment.value) {
-- 
2.43.0


From 25182c52474ed5b27b451f4699ba66928d52c6fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:02:02 +0000
Subject: [PATCH 39/52] fix: Escape closes a tooltip the pointer has just left

During the short time a tooltip stays open after the pointer has left,
Escape took it off the list of open overlays but left it open.
Returning to the trigger then showed a tooltip Escape could not close.
---
 packages/vlossom/src/components/vs-tooltip/VsTooltip.vue | 1 +
 1 file changed, 1 insertion(+)

diff --git a/packages/vlossom/src/components/vs-tooltip/VsTooltip.vue b/packages/vlossom/src/components/vs-tooltip/VsTooltip.vue
index 741d29b..938e035 100644
--- a/packages/vlossom/src/components/vs-tooltip/VsTooltip.vue
+++ b/packages/vlossom/src/components/vs-tooltip/VsTooltip.vue
@@ -130,6 +130,7 @@ export default defineComponent({
                     } else {
                         tooltipOver.value = false;
                         triggerOver.value = false;
+                        isMovingOut.value = false;
                     }
 
                     deactivate();
-- 
2.43.0


From a5fd91e3613df1a3b8772648c8cb950e90b769b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:11:30 +0000
Subject: [PATCH 40/52] fix: a scroll lock holds until everyone has released it

Locks of one container are counted, and the styles restored are those
from before the first lock. Two users of a container used to undo each
other's lock, and locking again right after unlocking left it locked.
---
 .../scroll-lock/scroll-lock-composable.ts     | 48 +++++++++++++------
 1 file changed, 33 insertions(+), 15 deletions(-)

diff --git a/packages/vlossom/src/composables/scroll-lock/scroll-lock-composable.ts b/packages/vlossom/src/composables/scroll-lock/scroll-lock-composable.ts
index d8b7a9a..3a873ba 100644
--- a/packages/vlossom/src/composables/scroll-lock/scroll-lock-composable.ts
+++ b/packages/vlossom/src/composables/scroll-lock/scroll-lock-composable.ts
@@ -7,16 +7,19 @@ interface ScrollLockState {
     paddingBottom: string;
 }
 
+interface ScrollLock {
+    holders: number;
+    originalState: ScrollLockState;
+}
+
+// the locks in force, shared by everyone who locks the same container
+const scrollLocks = new WeakMap<HTMLElement, ScrollLock>();
+
 export function useScrollLock(container: string = 'body') {
     const containerElement: HTMLElement | null = document.querySelector(container);
 
     const isLocked = ref(false);
 
-    const originalState = ref<ScrollLockState>({
-        overflow: '',
-        paddingRight: '0',
-        paddingBottom: '0',
-    });
     const scrollbarWidth = '8px';
     const isNotTouchDevice = !(domUtil.isBrowser() && deviceUtil.isTouchDevice());
 
@@ -25,15 +28,24 @@ export function useScrollLock(container: string = 'body') {
             return;
         }
 
-        originalState.value = {
-            overflow: containerElement.style.overflow,
-            paddingRight: containerElement.style.paddingRight,
-            paddingBottom: containerElement.style.paddingBottom,
-        };
+        const scrollLock = scrollLocks.get(containerElement);
+        if (scrollLock) {
+            scrollLock.holders++;
+            return;
+        }
+
+        scrollLocks.set(containerElement, {
+            holders: 1,
+            originalState: {
+                overflow: containerElement.style.overflow,
+                paddingRight: containerElement.style.paddingRight,
+                paddingBottom: containerElement.style.paddingBottom,
+            },
+        });
     }
 
     function applyScrollLockStyles() {
-        if (!containerElement) {
+        if (!containerElement || !scrollLocks.get(containerElement)?.holders) {
             return;
         }
 
@@ -50,13 +62,15 @@ export function useScrollLock(container: string = 'body') {
     }
 
     function restoreOriginalState() {
-        if (!containerElement) {
+        const scrollLock = containerElement && scrollLocks.get(containerElement);
+        if (!scrollLock || scrollLock.holders > 0) {
             return;
         }
 
-        containerElement.style.overflow = originalState.value.overflow;
-        containerElement.style.paddingRight = originalState.value.paddingRight;
-        containerElement.style.paddingBottom = originalState.value.paddingBottom;
+        containerElement.style.overflow = scrollLock.originalState.overflow;
+        containerElement.style.paddingRight = scrollLock.originalState.paddingRight;
+        containerElement.style.paddingBottom = scrollLock.originalState.paddingBottom;
+        scrollLocks.delete(containerElement);
     }
 
     function lock() {
@@ -75,6 +89,10 @@ export function useScrollLock(container: string = 'body') {
         }
 
         isLocked.value = false;
+        const scrollLock = scrollLocks.get(containerElement);
+        if (scrollLock) {
+            scrollLock.holders--;
+        }
         requestAnimationFrame(restoreOriginalState);
     }
 
-- 
2.43.0


From 5c34efe693be42b590308bd7523eef184ac3df81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:11:30 +0000
Subject: [PATCH 41/52] fix: v-scroll-shadow keeps the element's own container
 type

Switching the binding between true and undefined took the directive's own
value for the original one. Switching off a shadow that was never on
removed the container type of the element.
---
 .../vs-scroll-shadow/scroll-shadow-directive.ts           | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/packages/vlossom/src/directives/vs-scroll-shadow/scroll-shadow-directive.ts b/packages/vlossom/src/directives/vs-scroll-shadow/scroll-shadow-directive.ts
index 8c0c891..ed255ec 100644
--- a/packages/vlossom/src/directives/vs-scroll-shadow/scroll-shadow-directive.ts
+++ b/packages/vlossom/src/directives/vs-scroll-shadow/scroll-shadow-directive.ts
@@ -16,6 +16,10 @@ function verifyScrollContainer(el: HTMLElement): boolean {
 }
 
 function activate(el: HTMLElement): void {
+    if (originalContainerTypeMap.has(el)) {
+        return;
+    }
+
     const originalContainerType = el.style.containerType;
     const computedStyle = getComputedStyle(el).getPropertyValue('container-type').trim();
 
@@ -36,6 +40,10 @@ function activate(el: HTMLElement): void {
 }
 
 function deactivate(el: HTMLElement): void {
+    if (!originalContainerTypeMap.has(el)) {
+        return;
+    }
+
     el.classList.remove(SCROLL_SHADOW_MIXIN_CLASS);
 
     const originalContainerType = originalContainerTypeMap.get(el);
-- 
2.43.0


From c3341e124e1d9532808d881a56961f442d99b600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:33:41 +0000
Subject: [PATCH 42/52] fix: focus trap skips hidden and disabled elements

An element was only left out if it was both hidden and disabled, so the
focus left the trap when the last element was one of them.
---
 packages/vlossom/src/components/vs-focus-trap/VsFocusTrap.vue | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/vlossom/src/components/vs-focus-trap/VsFocusTrap.vue b/packages/vlossom/src/components/vs-focus-trap/VsFocusTrap.vue
index 65e602f..5c781ee 100644
--- a/packages/vlossom/src/components/vs-focus-trap/VsFocusTrap.vue
+++ b/packages/vlossom/src/components/vs-focus-trap/VsFocusTrap.vue
@@ -89,7 +89,7 @@ export default defineComponent({
             );
 
             const shownFocusables = Array.from(focusables).filter(
-                (focusable) => focusable.style.display !== 'none' || !focusable.hasAttribute('disabled'),
+                (focusable) => focusable.style.display !== 'none' && !focusable.hasAttribute('disabled'),
             );
 
             if (!shownFocusables.length) {
-- 
2.43.0


From a3715107740df844f9e4a1c308e6de455d197995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:33:41 +0000
Subject: [PATCH 43/52] fix: focus trap holds the focus before anything in it
 has it

Shift+Tab right after opening left the trap, and so did Tab while there
was nothing to focus in it, even if something appeared later, or from an
element at its edge that Tab does not reach.
---
 .../components/vs-focus-trap/VsFocusTrap.vue   | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/packages/vlossom/src/components/vs-focus-trap/VsFocusTrap.vue b/packages/vlossom/src/components/vs-focus-trap/VsFocusTrap.vue
index 5c781ee..3e5a60d 100644
--- a/packages/vlossom/src/components/vs-focus-trap/VsFocusTrap.vue
+++ b/packages/vlossom/src/components/vs-focus-trap/VsFocusTrap.vue
@@ -50,31 +50,29 @@ export default defineComponent({
             catchFocusables();
 
             if (!firstFocusable || !lastFocusable) {
+                // there is nowhere to go
+                event.preventDefault();
                 return;
             }
 
-            if (event.shiftKey && document.activeElement === firstFocusable) {
+            // the focus may be on an element that Tab does not reach, before the first or after the last one
+            const focused = document.activeElement as Node;
+            const isAtStart = !(firstFocusable.compareDocumentPosition(focused) & Node.DOCUMENT_POSITION_FOLLOWING);
+            const isAtEnd = !(lastFocusable.compareDocumentPosition(focused) & Node.DOCUMENT_POSITION_PRECEDING);
+            if (event.shiftKey && isAtStart) {
                 event.preventDefault();
                 lastFocusable.focus();
-            } else if (!event.shiftKey && document.activeElement === lastFocusable) {
+            } else if (!event.shiftKey && isAtEnd) {
                 event.preventDefault();
                 firstFocusable.focus();
             }
         }
 
         function activateCycle() {
-            if (!firstFocusable || !lastFocusable) {
-                return;
-            }
-
             focusTrapRef.value?.addEventListener('keydown', cycleTabKey);
         }
 
         function deactivateCycle() {
-            if (!firstFocusable || !lastFocusable) {
-                return;
-            }
-
             focusTrapRef.value?.removeEventListener('keydown', cycleTabKey);
         }
 
-- 
2.43.0


From 9a673b3258e65bfe4ce96fbdaf254c966868da07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:38:23 +0000
Subject: [PATCH 44/52] fix: closing a focus trap returns the focus to where it
 was

A drawer returned it to what had the focus when the page was mounted, and
closing an overlay below another one took the focus from the upper one.
---
 .../vlossom/src/components/vs-focus-trap/VsFocusTrap.vue | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/packages/vlossom/src/components/vs-focus-trap/VsFocusTrap.vue b/packages/vlossom/src/components/vs-focus-trap/VsFocusTrap.vue
index 3e5a60d..583e2d7 100644
--- a/packages/vlossom/src/components/vs-focus-trap/VsFocusTrap.vue
+++ b/packages/vlossom/src/components/vs-focus-trap/VsFocusTrap.vue
@@ -37,7 +37,7 @@ export default defineComponent({
             return wrapperRef.value instanceof HTMLElement ? wrapperRef.value : (wrapperRef.value.$el as HTMLElement);
         });
 
-        const previousFocused: HTMLElement | null = document.activeElement as HTMLElement;
+        let previousFocused: HTMLElement | null = document.activeElement as HTMLElement;
 
         let firstFocusable: HTMLElement | null = null;
         let lastFocusable: HTMLElement | null = null;
@@ -104,12 +104,19 @@ export default defineComponent({
             nextTick(() => {
                 const isChildOfFocusTrap = document.activeElement?.closest('.vs-focus-trap') === focusTrapRef.value;
                 if (!isChildOfFocusTrap) {
+                    previousFocused = document.activeElement as HTMLElement;
                     focusTrapAnchorRef.value?.focus({ preventScroll: true });
                 }
             });
         }
 
         function blur() {
+            // the focus has moved on by itself
+            const focused = document.activeElement;
+            if (focused && focused !== document.body && !focusTrapRef.value?.contains(focused)) {
+                return;
+            }
+
             if (previousFocused?.focus) {
                 previousFocused.focus();
             }
-- 
2.43.0


From 19d24b07f242dff2c5183748f50f7bb85eda148d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:10:48 +0000
Subject: [PATCH 45/52] fix: keep a chosen falsy option when the option list is
 replaced

A plain option such as 0, false or '' that is still offered was taken for
missing, so the choice was reset to null.
---
 .../src/composables/input-option/input-option-composable.ts   | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/vlossom/src/composables/input-option/input-option-composable.ts b/packages/vlossom/src/composables/input-option/input-option-composable.ts
index eb109f1..a24a208 100644
--- a/packages/vlossom/src/composables/input-option/input-option-composable.ts
+++ b/packages/vlossom/src/composables/input-option/input-option-composable.ts
@@ -21,9 +21,9 @@ export function useInputOption(
                 return newOptions.some((o) => objectUtil.isEqual(getOptionValue(o), value));
             });
         } else {
-            const option = newOptions.find((o) => objectUtil.isEqual(getOptionValue(o), inputValue.value));
+            const offered = newOptions.some((o) => objectUtil.isEqual(getOptionValue(o), inputValue.value));
 
-            if (!option) {
+            if (!offered) {
                 inputValue.value = null;
             }
         }
-- 
2.43.0


From 73b4cccb4063a3187f0d7672ce4d6f8ede1b334d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:38:36 +0000
Subject: [PATCH 46/52] fix: leave nested unsearched columns out of the table
 search

---
 .../vs-table/composables/table-search-composable.ts          | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/packages/vlossom/src/components/vs-table/composables/table-search-composable.ts b/packages/vlossom/src/components/vs-table/composables/table-search-composable.ts
index 596ee70..fcf7076 100644
--- a/packages/vlossom/src/components/vs-table/composables/table-search-composable.ts
+++ b/packages/vlossom/src/components/vs-table/composables/table-search-composable.ts
@@ -21,10 +21,11 @@ export function useTableSearch(ref: Ref<VsSearchInputRef | null>, columns: Compu
             return false;
         }
         const brushedItem = objectUtil.omit(item, skipKeyList.value);
-        const crushedItem = objectUtil.crush(brushedItem);
+        const crushedItem = objectUtil.crush(brushedItem) as Record<string, unknown>;
+        const searchedItem = objectUtil.omit(crushedItem, skipKeyList.value);
         const search = ref.value.match;
 
-        const flattenedItemText = Object.values(crushedItem).join(' ');
+        const flattenedItemText = Object.values(searchedItem).join(' ');
         return search(flattenedItemText);
     }
 
-- 
2.43.0


From a4a1aedf38f1100b853c13aff14da67198f495b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:11:19 +0000
Subject: [PATCH 47/52] fix: leave keys pressed inside an accordion to its
 content

---
 packages/vlossom/src/components/vs-accordion/VsAccordion.vue | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/vlossom/src/components/vs-accordion/VsAccordion.vue b/packages/vlossom/src/components/vs-accordion/VsAccordion.vue
index 16f5835..39fe618 100644
--- a/packages/vlossom/src/components/vs-accordion/VsAccordion.vue
+++ b/packages/vlossom/src/components/vs-accordion/VsAccordion.vue
@@ -5,8 +5,8 @@
         :grid
         :style="{ ...styleSetVariables, ...componentInlineStyle }"
         :tabindex="disabled ? -1 : 0"
-        @keydown.enter.prevent.stop="toggle"
-        @keydown.space.prevent.stop="toggle"
+        @keydown.self.enter.prevent.stop="toggle"
+        @keydown.self.space.prevent.stop="toggle"
     >
         <div class="vs-accordion-title" :style="componentStyleSet.$title" @click.prevent.stop="toggle">
             <slot name="title" />
-- 
2.43.0


From 2cdbcb9ea496faeb13e0b031c4a2c4e30fdb26d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:11:19 +0000
Subject: [PATCH 48/52] fix: copy the text a text wrap shows now and keep its
 mark after the last copy

---
 .../src/components/vs-text-wrap/VsTextWrap.vue   | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/packages/vlossom/src/components/vs-text-wrap/VsTextWrap.vue b/packages/vlossom/src/components/vs-text-wrap/VsTextWrap.vue
index 48a7b3f..689011c 100644
--- a/packages/vlossom/src/components/vs-text-wrap/VsTextWrap.vue
+++ b/packages/vlossom/src/components/vs-text-wrap/VsTextWrap.vue
@@ -79,24 +79,25 @@ export default defineComponent({
         const contentsRef: Ref<HTMLElement | null> = ref(null);
         const copied = ref(false);
 
-        const contentText = computed(() => {
-            return contentsRef.value?.innerText || '';
-        });
+        let copiedTimer: ReturnType<typeof setTimeout> | undefined;
 
         async function copyInnerText() {
-            if (!contentText.value) {
+            // the rendered text is not reactive: it must be read when it is copied
+            const contentText = contentsRef.value?.innerText || '';
+            if (!contentText) {
                 return;
             }
 
-            const success = await clipboardUtil.copy(contentText.value);
+            const success = await clipboardUtil.copy(contentText);
             if (!success) {
                 return;
             }
 
-            emit('copied', contentText.value);
+            emit('copied', contentText);
 
             copied.value = true;
-            setTimeout(() => {
+            clearTimeout(copiedTimer);
+            copiedTimer = setTimeout(() => {
                 copied.value = false;
             }, 2000);
         }
@@ -126,7 +127,6 @@ export default defineComponent({
         return {
             componentStyleSet,
             componentInlineStyle,
-            contentText,
             contentsRef,
             copyInnerText,
             openLink,
-- 
2.43.0


From 9ee70015ced4f375a0534562ccdaefc37124bacd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:12:28 +0000
Subject: [PATCH 49/52] fix: use a substitute given after an image has failed

---
 packages/vlossom/src/components/vs-image/VsImage.vue | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/packages/vlossom/src/components/vs-image/VsImage.vue b/packages/vlossom/src/components/vs-image/VsImage.vue
index df8560c..ef0842a 100644
--- a/packages/vlossom/src/components/vs-image/VsImage.vue
+++ b/packages/vlossom/src/components/vs-image/VsImage.vue
@@ -83,11 +83,19 @@ export default defineComponent({
             return src.value;
         });
 
-        watch([src, fallback], () => {
+        watch(src, () => {
             isFallback.value = false;
             isNoImage.value = false;
         });
 
+        watch(fallback, () => {
+            // a source that has already failed is not loaded again
+            if (isFallback.value || isNoImage.value) {
+                isFallback.value = !!fallback.value;
+                isNoImage.value = !fallback.value;
+            }
+        });
+
         function onImageLoad() {
             isLoading.value = false;
         }
-- 
2.43.0


From 9c449f26db35291c76d5b27d7941f2bdde5d0673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:43:47 +0000
Subject: [PATCH 50/52] fix: scaffold a model binding only for components that
 support it

---
 .../scaffold/component-usage-scaffolder.ts    | 22 ++++++++++---------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/packages/vlossom-mcp/src/internal/scaffold/component-usage-scaffolder.ts b/packages/vlossom-mcp/src/internal/scaffold/component-usage-scaffolder.ts
index 3652b5f..a86e42a 100644
--- a/packages/vlossom-mcp/src/internal/scaffold/component-usage-scaffolder.ts
+++ b/packages/vlossom-mcp/src/internal/scaffold/component-usage-scaffolder.ts
@@ -94,22 +94,28 @@ function camelToKebab(value: string): string {
     return value.replace(/([A-Z])/g, '-$1').toLowerCase();
 }
 
+// The same condition validation uses for an unnamed v-model.
+function supportsVModel(meta: ComponentMeta): boolean {
+    return (
+        meta.props.some((prop) => prop.name === 'modelValue') &&
+        meta.events.some((event) => event.name === 'update:modelValue')
+    );
+}
+
 /**
  * Build a tag snippet from registry metadata only.
  *
  * The scaffolder intentionally avoids inventing feature-specific bindings
  * (form field names, column shapes, validation rule names, ...). Those are
  * the agent's domain. We derive only what the metadata can prove:
- *   - v-model support comes from `modelValue` prop / `update:modelValue` event
+ *   - v-model support comes from `modelValue` prop and `update:modelValue` event
  *   - required props are surfaced as placeholders the agent has to fill
  *   - default slot tells us whether the tag carries children
  */
 function componentTag(meta: ComponentMeta): string {
-    const hasVModel =
-        meta.props.some((prop) => prop.name === 'modelValue') ||
-        meta.events.some((event) => event.name === 'update:modelValue');
+    const hasVModel = supportsVModel(meta);
     const hasDefaultSlot = meta.slots.some((slot) => slot.name === 'default');
-    const requiredProps = meta.props.filter((prop) => prop.required && prop.name !== 'modelValue');
+    const requiredProps = meta.props.filter((prop) => prop.required && !(hasVModel && prop.name === 'modelValue'));
 
     const attrs: string[] = [];
     if (hasVModel) attrs.push('v-model="modelValue"');
@@ -143,11 +149,7 @@ function titleFromDescription(description: string, maxLength: number): string {
 
 function buildScript(components: ComponentMeta[], context: ScaffoldContext | undefined): string {
     const names = [...new Set(components.map((component) => component.name))].sort();
-    const vModelComponents = components.filter(
-        (component) =>
-            component.props.some((prop) => prop.name === 'modelValue') ||
-            component.events.some((event) => event.name === 'update:modelValue'),
-    );
+    const vModelComponents = components.filter(supportsVModel);
     const vueImports = new Set<string>();
     if (vModelComponents.length > 0) vueImports.add('ref');
 
-- 
2.43.0


From 8062af26c424b92371da7e7909da2a93f84a2061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:18:43 +0000
Subject: [PATCH 51/52] fix: hide the label of radios, switches and option sets
 when asked to

---
 packages/vlossom/src/components/vs-checkbox/VsCheckboxSet.vue | 1 +
 packages/vlossom/src/components/vs-radio/VsRadio.vue          | 1 +
 packages/vlossom/src/components/vs-radio/VsRadioSet.vue       | 1 +
 packages/vlossom/src/components/vs-switch/VsSwitch.vue        | 1 +
 4 files changed, 4 insertions(+)

diff --git a/packages/vlossom/src/components/vs-checkbox/VsCheckboxSet.vue b/packages/vlossom/src/components/vs-checkbox/VsCheckboxSet.vue
index 21421e9..f338461 100644
--- a/packages/vlossom/src/components/vs-checkbox/VsCheckboxSet.vue
+++ b/packages/vlossom/src/components/vs-checkbox/VsCheckboxSet.vue
@@ -8,6 +8,7 @@
         :width
         :grid
         :label
+        :no-label
         :required
         :no-messages
         :shake
diff --git a/packages/vlossom/src/components/vs-radio/VsRadio.vue b/packages/vlossom/src/components/vs-radio/VsRadio.vue
index c6b74e0..c45a296 100644
--- a/packages/vlossom/src/components/vs-radio/VsRadio.vue
+++ b/packages/vlossom/src/components/vs-radio/VsRadio.vue
@@ -7,6 +7,7 @@
         :messages="computedMessages"
         :grid
         :label
+        :no-label
         :no-messages
         :required
         :shake
diff --git a/packages/vlossom/src/components/vs-radio/VsRadioSet.vue b/packages/vlossom/src/components/vs-radio/VsRadioSet.vue
index 1012dbc..edf3cbf 100644
--- a/packages/vlossom/src/components/vs-radio/VsRadioSet.vue
+++ b/packages/vlossom/src/components/vs-radio/VsRadioSet.vue
@@ -8,6 +8,7 @@
         :width
         :grid
         :label
+        :no-label
         :required
         :no-messages
         :shake
diff --git a/packages/vlossom/src/components/vs-switch/VsSwitch.vue b/packages/vlossom/src/components/vs-switch/VsSwitch.vue
index 11f3038..245a98c 100644
--- a/packages/vlossom/src/components/vs-switch/VsSwitch.vue
+++ b/packages/vlossom/src/components/vs-switch/VsSwitch.vue
@@ -6,6 +6,7 @@
         :grid
         :id="computedId"
         :label
+        :no-label
         :required
         :disabled="computedDisabled"
         :messages="computedMessages"
-- 
2.43.0


From 9d76eb6ac4e5b8e9bebf9542c2cf3cf29bbc9f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:30:19 +0000
Subject: [PATCH 52/52] fix: validate slots named per key and bindings written
 in any notation

---
 .../src/internal/validation/sfc-validator.ts  | 20 +++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/packages/vlossom-mcp/src/internal/validation/sfc-validator.ts b/packages/vlossom-mcp/src/internal/validation/sfc-validator.ts
index 1e6b69f..75d64e8 100644
--- a/packages/vlossom-mcp/src/internal/validation/sfc-validator.ts
+++ b/packages/vlossom-mcp/src/internal/validation/sfc-validator.ts
@@ -180,7 +180,7 @@ function validatePropsAndEvents(meta: ComponentMeta, body: string, line: number)
     const propNames = new Set(meta.props.map((prop) => prop.name));
     const eventNames = new Set(meta.events.map((event) => kebabToCamelCase(event.name)));
     const providedProps = new Set<string>();
-    const attrPattern = /(?:^|\s)([@:]?[\w:-]+)(?=\s*(?:=|\s|$))/g;
+    const attrPattern = /(?:^|\s)([@:]?[\w:-]+)(?:\.[\w.-]+)?(?=\s*(?:=|\s|\/?$))/g;
 
     for (const match of body.matchAll(/\bv-model(?::([a-zA-Z0-9-]+))?/g)) {
         providedProps.add(match[1] ? kebabToCamelCase(match[1]) : 'modelValue');
@@ -189,7 +189,7 @@ function validatePropsAndEvents(meta: ComponentMeta, body: string, line: number)
     // Words inside attribute values are not attributes.
     const names = body.replace(/=\s*(?:"[^"]*"|'[^']*')/g, '=""');
     for (const match of names.matchAll(attrPattern)) {
-        const raw = match[1] ?? '';
+        const raw = (match[1] ?? '').replace(/^v-bind:/, ':').replace(/^v-on:/, '@');
         if (!raw || raw.startsWith('#')) continue;
         if (raw.startsWith('@')) {
             const event = kebabToCamelCase(raw.slice(1));
@@ -258,7 +258,8 @@ function extractSlotUses(code: string): Array<{ rawTag: string; slot: string; li
         const tag = match[2] ?? '';
         const body = match[3] ?? '';
         if (tag === 'template') {
-            const slot = match[1] ? undefined : /^\s+#([\w-]+)/.exec(body)?.[1];
+            const names = body.replace(/=\s*(?:"[^"]*"|'[^']*')/g, '=""');
+            const slot = match[1] ? undefined : /\s(?:#|v-slot:)([\w-]+)/.exec(names)?.[1];
             const owner = open[open.length - 1];
             if (slot && owner) uses.push({ rawTag: owner, slot, line: lineNumber(code, match.index ?? 0) });
         } else if (match[1]) {
@@ -271,18 +272,25 @@ function extractSlotUses(code: string): Array<{ rawTag: string; slot: string; li
     return uses;
 }
 
+// A documented name such as 'header-[key]' stands for a slot per key.
+function isSlotNamed(slot: string, documented: string): boolean {
+    const [before = '', after] = documented.split(/\[[^\]]*\]/);
+    if (after === undefined) return slot === documented;
+    return slot.length > before.length + after.length && slot.startsWith(before) && slot.endsWith(after);
+}
+
 async function validateSlots(code: string, versionContext: VersionContext): Promise<VlossomValidationIssue[]> {
     const issues: VlossomValidationIssue[] = [];
     for (const { rawTag, slot, line } of extractSlotUses(code)) {
         const meta = await getComponentMeta(rawTag.includes('-') ? kebabToPascalCase(rawTag) : rawTag, versionContext);
         if (!meta) continue;
-        const allowed = new Set(meta.slots.map((entry) => entry.name));
-        if (!allowed.has(slot)) {
+        const allowed = meta.slots.map((entry) => entry.name);
+        if (!allowed.some((name) => isSlotNamed(slot, name))) {
             issues.push(
                 issue(
                     'SLOT_EXISTS',
                     `${meta.name} does not declare slot '${slot}'.`,
-                    `Use one of: ${[...allowed].join(', ') || '(no declared slots)'}.`,
+                    `Use one of: ${allowed.join(', ') || '(no declared slots)'}.`,
                     line,
                 ),
             );
-- 
2.43.0

