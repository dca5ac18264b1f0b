From b0a1e1c259baa564267282f7b2a9fdd8786b367a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:32 +0000
Subject: [PATCH 01/51] fix: keep every class of the list that shares a rule
 with another class

Winners were identified by selector, so with '.a.b' or '.group:hover .x' only
the last class of the list that belongs to the rule survived.
---
 merge.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/merge.go b/merge.go
index 8cd99b9..2e8f9ae 100644
--- a/merge.go
+++ b/merge.go
@@ -228,7 +228,10 @@ func (r *Merger) Merge(inClass string) string {
 			continue
 		}
 
-		selectorToClass[rule.Selector.String()] = class
+		// several classes in the list may belong to the same rule (e.g., ".a.b"),
+		// so the selector alone does not identify the class
+		selKey := class + " " + rule.Selector.String()
+		selectorToClass[selKey] = class
 		propMod := propModifier(class, rule)
 
 		for _, prop := range r.getAffectedProps(rule) {
@@ -246,18 +249,18 @@ func (r *Merger) Merge(inClass string) string {
 
 				// if the property is marked !important, add the class to the importantProps map
 				if importantRegex.MatchString(dec.Value) {
-					importantPropsToSelectors[prop] = rule.Selector.String()
+					importantPropsToSelectors[prop] = selKey
 				}
 			}
 
 			// if it has a custom prop, add it to the customVars map
 			if strings.HasPrefix(prop, "--") {
-				customVarsToSelectors[prop] = rule.Selector.String()
+				customVarsToSelectors[prop] = selKey
 				continue
 			}
 
 			// add all classes to the propsToClasses map
-			propsToSelectors[prop] = rule.Selector.String()
+			propsToSelectors[prop] = selKey
 		}
 	}
 
-- 
2.43.0


From 3cccf165ee8e185cfcec94ef6ecadf32fa8c26f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:52 +0000
Subject: [PATCH 02/51] fix: attribute !important and var() only to the
 properties their declaration sets

Every declaration of a rule was consulted for every property of the rule: one
!important made the whole rule important, and the custom properties a property
uses were overwritten by whatever declaration came last.
---
 merge.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/merge.go b/merge.go
index 2e8f9ae..9f03bb9 100644
--- a/merge.go
+++ b/merge.go
@@ -128,6 +128,15 @@ func (r *Merger) getAffectedProps(rule cascadia.CssRule) []string {
 	return unique(affectedProps)
 }
 
+// affects reports whether a declaration sets a given affected property (see getAffectedProps).
+func (r *Merger) affects(dec cascadia.CssDeclaration, affectedProp string) bool {
+	prop, ok := r.properties[dec.Property]
+	if !ok {
+		return dec.Property == affectedProp
+	}
+	return slices.Contains(prop.ComputedProps(), affectedProp)
+}
+
 var importantRegex = regexp.MustCompile(`!important`)      // matches !important in a css declaration value
 var customVarRegex = regexp.MustCompile(`var\((--[\w-]+)`) // matches custom variables in a css declaration value
 
@@ -236,9 +245,14 @@ func (r *Merger) Merge(inClass string) string {
 
 		for _, prop := range r.getAffectedProps(rule) {
 
+			propName := prop
 			prop = prop + propMod
 
 			for _, dec := range rule.Declarations {
+				// other declarations of the rule say nothing about this property
+				if !r.affects(dec, propName) {
+					continue
+				}
 
 				if !strings.HasPrefix(prop, "--") {
 					// if the property has a custom var, add it to the propsToCustomVars map
-- 
2.43.0


From 55744034ea63353d02aef09225a730162784e81d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:21 +0000
Subject: [PATCH 03/51] fix: keep custom properties used indirectly or set
 under a condition

A custom property counted as used only if a regular property refers to it and
its setter is unconditional: 'ring ring-red-500', 'bg-gradient-to-r from-a to-b'
and 'border-white hover:border-opacity-50' lost their last class.
---
 merge.go | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/merge.go b/merge.go
index 9f03bb9..eaa98d9 100644
--- a/merge.go
+++ b/merge.go
@@ -229,6 +229,8 @@ func (r *Merger) Merge(inClass string) string {
 	importantPropsToSelectors := make(map[string]string, len(split))
 	customVarsToSelectors := make(map[string]string, len(split)) // map of custom vars to the class that set them
 	propsToCustomVars := make(map[string][]string, len(split))   // map of props to the custom vars that it uses
+	customVarNames := make(map[string]string, len(split))        // map of custom vars to their name without the condition
+	customVarsToVars := make(map[string][]string, len(split))    // map of custom vars to the custom vars that their definition uses
 	for _, class := range split {
 		rule, ok := r.rules[class]
 		if !ok {
@@ -259,6 +261,9 @@ func (r *Merger) Merge(inClass string) string {
 					customVars := getCustomVarsInDec(dec)
 					// overwrite the customVars so we prioritize the last class that sets the property
 					propsToCustomVars[prop] = customVars
+				} else {
+					customVarNames[prop] = propName
+					customVarsToVars[prop] = getCustomVarsInDec(dec)
 				}
 
 				// if the property is marked !important, add the class to the importantProps map
@@ -294,8 +299,26 @@ func (r *Merger) Merge(inClass string) string {
 		keepClasses = append(keepClasses, class)
 	}
 
+	// a custom property is also used if it is only used by the definition of another custom property that is used
+	for changed := true; changed; {
+		changed = false
+		for custVar, vars := range customVarsToVars {
+			if _, done := propsToCustomVars[custVar]; done {
+				continue
+			}
+			for _, used := range propsToCustomVars {
+				if slices.Contains(used, customVarNames[custVar]) {
+					propsToCustomVars[custVar] = vars
+					changed = true
+					break
+				}
+			}
+		}
+	}
+
 	// keep the class that sets the last definition of each custom property if that custom property is actually used
 	for custVar, sel := range customVarsToSelectors {
+		custVar = customVarNames[custVar]
 		for _, vars := range propsToCustomVars {
 			// if the custom property is actually used, keep the class that sets it
 			if !slices.Contains(vars, custVar) {
-- 
2.43.0


From cd8d69292b300ea985ab9df0253b12882dfa1400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:22 +0000
Subject: [PATCH 04/51] fix: keep the custom properties that an !important
 declaration uses

The uses of a property were those of its last class, although an earlier
!important declaration is the one in effect.
---
 merge.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/merge.go b/merge.go
index eaa98d9..f962a91 100644
--- a/merge.go
+++ b/merge.go
@@ -269,6 +269,14 @@ func (r *Merger) Merge(inClass string) string {
 				// if the property is marked !important, add the class to the importantProps map
 				if importantRegex.MatchString(dec.Value) {
 					importantPropsToSelectors[prop] = selKey
+					// it stays in effect after a later declaration that is not important, and so do the custom vars it uses
+					importantProp := prop + "!important"
+					if !strings.HasPrefix(prop, "--") {
+						propsToCustomVars[importantProp] = getCustomVarsInDec(dec)
+					} else {
+						customVarNames[importantProp] = propName
+						customVarsToVars[importantProp] = getCustomVarsInDec(dec)
+					}
 				}
 			}
 
-- 
2.43.0


From d0f5f04c1ad838ca912af6531a9251f923ed42d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:34 +0000
Subject: [PATCH 05/51] fix: recognise every way to write a reference to a
 custom property

Whitespace inside var(), escaped or non-ASCII names and upper-case VAR() were
not recognised, so the class that sets the custom property was removed.
---
 internal/cascadia/rules.go | 2 +-
 merge.go                   | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/cascadia/rules.go b/internal/cascadia/rules.go
index 09c55d2..d2fb5ac 100644
--- a/internal/cascadia/rules.go
+++ b/internal/cascadia/rules.go
@@ -197,6 +197,6 @@ func buildDeclaration(p *css.Parser, data []byte) CssDeclaration {
 		vals.Write(val.Data)
 	}
 	s := normalizeWhitespace(vals.String())
-	declaration := CssDeclaration{Property: string(data), Value: CssUnescape([]byte(s))}
+	declaration := CssDeclaration{Property: CssUnescape(data), Value: CssUnescape([]byte(s))}
 	return declaration
 }
diff --git a/merge.go b/merge.go
index f962a91..bed6d09 100644
--- a/merge.go
+++ b/merge.go
@@ -137,8 +137,8 @@ func (r *Merger) affects(dec cascadia.CssDeclaration, affectedProp string) bool
 	return slices.Contains(prop.ComputedProps(), affectedProp)
 }
 
-var importantRegex = regexp.MustCompile(`!important`)      // matches !important in a css declaration value
-var customVarRegex = regexp.MustCompile(`var\((--[\w-]+)`) // matches custom variables in a css declaration value
+var importantRegex = regexp.MustCompile(`!important`)                          // matches !important in a css declaration value
+var customVarRegex = regexp.MustCompile(`(?i)var\(\s*(--[^\s,()]+)`) // matches custom variables in a css declaration value
 
 func getCustomVarsInDec(dec cascadia.CssDeclaration) []string {
 	matches := customVarRegex.FindAllStringSubmatch(dec.Value, -1)
-- 
2.43.0


From 5e062bfed5616b2f0fa4c6056f69b4d5b39e6574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:35 +0000
Subject: [PATCH 06/51] fix: recognise !important in any case and with inner
 whitespace, and not in strings

---
 merge.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/merge.go b/merge.go
index bed6d09..1a88341 100644
--- a/merge.go
+++ b/merge.go
@@ -137,7 +137,7 @@ func (r *Merger) affects(dec cascadia.CssDeclaration, affectedProp string) bool
 	return slices.Contains(prop.ComputedProps(), affectedProp)
 }
 
-var importantRegex = regexp.MustCompile(`!important`)                          // matches !important in a css declaration value
+var importantRegex = regexp.MustCompile(`(?i)!\s*important\s*$`)     // matches !important in a css declaration value
 var customVarRegex = regexp.MustCompile(`(?i)var\(\s*(--[^\s,()]+)`) // matches custom variables in a css declaration value
 
 func getCustomVarsInDec(dec cascadia.CssDeclaration) []string {
-- 
2.43.0


From 2043bebcf636bb9962b2b4d76f7616b0f60aed6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:53 +0000
Subject: [PATCH 07/51] fix: compare rules with pseudo-classes or combinators
 only within their at-rule

The condition of the at-rule was dropped for every selector that is more than a
class, so 'md:hover:p-2 hover:p-4' lost its first class.
---
 internal/cascadia/rules.go | 2 +-
 merge.go                   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/cascadia/rules.go b/internal/cascadia/rules.go
index d2fb5ac..da33dbb 100644
--- a/internal/cascadia/rules.go
+++ b/internal/cascadia/rules.go
@@ -45,7 +45,7 @@ func (r CssRule) GetSelector() string {
 
 func (r CssRule) GetCondition() string {
 	if t, ok := r.Selector.(CompoundSelector); ok {
-		return t.PseudoElementsString()
+		return r.condition + t.PseudoElementsString()
 	}
 	return r.condition
 }
diff --git a/merge.go b/merge.go
index 1a88341..81313ce 100644
--- a/merge.go
+++ b/merge.go
@@ -197,7 +197,7 @@ func propModifier(class string, rule cascadia.CssRule) string {
 	} else {
 		// use the selector with the class name removed to codify what the selector is being applied to
 		s := cascadia.CssUnescape([]byte(rule.Selector.String()))
-		return strings.Replace(s, class, "", 1)
+		return rule.GetCondition() + strings.Replace(s, class, "", 1)
 	}
 }
 
-- 
2.43.0


From d4008849211f3bb85f2bf8e924cca9d22b689bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:54 +0000
Subject: [PATCH 08/51] fix: do not mix up a pseudo-element with its element

'before:p-1 p-2' lost its first class.
---
 internal/cascadia/selector.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/cascadia/selector.go b/internal/cascadia/selector.go
index 8981252..9359b9b 100644
--- a/internal/cascadia/selector.go
+++ b/internal/cascadia/selector.go
@@ -440,6 +440,9 @@ func (c CompoundSelector) PseudoElementsString() string {
 		strs = append(strs, sel.String())
 	}
 	slices.Sort[[]string](strs)
+	if c.pseudoElement != "" {
+		strs = append(strs, "::"+c.pseudoElement)
+	}
 	return strings.Join(strs, "")
 }
 
-- 
2.43.0


From 198a94970958d7840649a8fa9bea1a6454cc94d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:55 +0000
Subject: [PATCH 09/51] fix: count :is() and :where() as conditions

'.x:is(:hover)' was taken for the unconditional '.x'.
---
 internal/cascadia/pseudo_classes.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/cascadia/pseudo_classes.go b/internal/cascadia/pseudo_classes.go
index 78b9427..019332d 100644
--- a/internal/cascadia/pseudo_classes.go
+++ b/internal/cascadia/pseudo_classes.go
@@ -617,6 +617,10 @@ func IsPseudoElement(sel Sel) bool {
 		return true
 	case RelativePseudoClassSelector:
 		return true
+	case IsPseudoClassSelector:
+		return true
+	case WherePseudoClassSelector:
+		return true
 	case ContainsPseudoClassSelector:
 		return true
 	case RegexpPseudoClassSelector:
-- 
2.43.0


From 092618c4961fab3c51c14f03f72431697e0f7206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:43 +0000
Subject: [PATCH 10/51] fix: remove exactly the class name when comparing
 selector contexts

---
 merge.go | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/merge.go b/merge.go
index 81313ce..95b65bd 100644
--- a/merge.go
+++ b/merge.go
@@ -196,11 +196,28 @@ func propModifier(class string, rule cascadia.CssRule) string {
 		return rule.GetCondition()
 	} else {
 		// use the selector with the class name removed to codify what the selector is being applied to
-		s := cascadia.CssUnescape([]byte(rule.Selector.String()))
-		return rule.GetCondition() + strings.Replace(s, class, "", 1)
+		return rule.GetCondition() + removeClass(class, rule.Selector.String())
 	}
 }
 
+// removeClass removes the name of a class from a serialized selector.
+// The name may also be part of another name in the selector (e.g., "btn" in ".btn-group .btn").
+func removeClass(class string, selector string) string {
+	classSelector := cascadia.ClassSelector{Class: class}.String()
+	for i := 0; i < len(selector); i++ {
+		if !strings.HasPrefix(selector[i:], classSelector) || (i > 0 && selector[i-1] == '\\') {
+			continue
+		}
+		end := i + len(classSelector)
+		if end == len(selector) || !nameContinues.MatchString(selector[end:]) {
+			return selector[:i+1] + selector[end:]
+		}
+	}
+	return selector
+}
+
+var nameContinues = regexp.MustCompile(`^[\w\-\\\\]|^[^\x00-\x7F]`) // matches if a serialized css name goes on
+
 // Merge resolves conflicting css class rules.
 // It takes a string of space-separated class names.
 // Returns a string of space-separated class names with the conflicting classes removed.
-- 
2.43.0


From a0e5f267b80ea71c4ebecfd0e8dc5040c951d58b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:02 +0000
Subject: [PATCH 11/51] fix: expand shorthands of shorthands

---
 merge.go | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/merge.go b/merge.go
index 95b65bd..4af54bf 100644
--- a/merge.go
+++ b/merge.go
@@ -123,18 +123,33 @@ func (r *Merger) getAffectedProps(rule cascadia.CssRule) []string {
 			// IMPORTANT: we are relying on this to let custom properties through
 			affectedProps = append(affectedProps, dec.Property)
 		}
-		affectedProps = append(affectedProps, prop.ComputedProps()...)
+		affectedProps = append(affectedProps, r.longhands(dec.Property, prop)...)
 	}
 	return unique(affectedProps)
 }
 
+// longhands returns the properties that a property sets: itself, or those it is a shorthand for.
+// A shorthand may set other shorthands (e.g., border sets border-width, which sets border-top-width).
+func (r *Merger) longhands(name string, prop props.Property) []string {
+	var longhands []string
+	for _, computed := range prop.ComputedProps() {
+		sub, ok := r.properties[computed]
+		if !ok || computed == name {
+			longhands = append(longhands, computed)
+			continue
+		}
+		longhands = append(longhands, r.longhands(computed, sub)...)
+	}
+	return longhands
+}
+
 // affects reports whether a declaration sets a given affected property (see getAffectedProps).
 func (r *Merger) affects(dec cascadia.CssDeclaration, affectedProp string) bool {
 	prop, ok := r.properties[dec.Property]
 	if !ok {
 		return dec.Property == affectedProp
 	}
-	return slices.Contains(prop.ComputedProps(), affectedProp)
+	return slices.Contains(r.longhands(dec.Property, prop), affectedProp)
 }
 
 var importantRegex = regexp.MustCompile(`(?i)!\s*important\s*$`)     // matches !important in a css declaration value
-- 
2.43.0


From 292972a45c145c17089d3fdc939ac3a9a0e12ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:02 +0000
Subject: [PATCH 12/51] fix: correct the longhands of border, font-variant and
 font-synthesis shorthands

---
 internal/props/gen/properties.json | 71 +++++++++++++++++++++---------
 1 file changed, 51 insertions(+), 20 deletions(-)

diff --git a/internal/props/gen/properties.json b/internal/props/gen/properties.json
index 3308c26..ca44458 100644
--- a/internal/props/gen/properties.json
+++ b/internal/props/gen/properties.json
@@ -1243,9 +1243,9 @@
       ],
       "appliesto": "allElements",
       "computed": [
-        "border-width",
-        "border-style",
-        "color"
+        "border-block-start-width",
+        "border-block-start-style",
+        "border-block-start-color"
       ],
       "order": "uniqueOrder",
       "status": "nonstandard",
@@ -2486,7 +2486,10 @@
       ],
       "initial": "currentcolor",
       "appliesto": "allElements",
-      "computed": "computedColor",
+      "computed": [
+        "border-block-start-color",
+        "border-block-end-color"
+      ],
       "order": "uniqueOrder",
       "status": "standard",
       "mdn_url": "https://developer.mozilla.org/docs/Web/CSS/border-block-color"
@@ -2502,7 +2505,10 @@
       ],
       "initial": "none",
       "appliesto": "allElements",
-      "computed": "asSpecified",
+      "computed": [
+        "border-block-start-style",
+        "border-block-end-style"
+      ],
       "order": "uniqueOrder",
       "status": "standard",
       "mdn_url": "https://developer.mozilla.org/docs/Web/CSS/border-block-style"
@@ -2518,7 +2524,10 @@
       ],
       "initial": "medium",
       "appliesto": "allElements",
-      "computed": "absoluteLengthZeroIfBorderStyleNoneOrHidden",
+      "computed": [
+        "border-block-start-width",
+        "border-block-end-width"
+      ],
       "order": "uniqueOrder",
       "status": "standard",
       "mdn_url": "https://developer.mozilla.org/docs/Web/CSS/border-block-width"
@@ -2543,9 +2552,9 @@
       ],
       "appliesto": "allElements",
       "computed": [
-        "border-top-width",
-        "border-top-style",
-        "border-top-color"
+        "border-block-end-width",
+        "border-block-end-style",
+        "border-block-end-color"
       ],
       "order": "uniqueOrder",
       "status": "standard",
@@ -2619,8 +2628,8 @@
       ],
       "appliesto": "allElements",
       "computed": [
-        "border-width",
-        "border-style",
+        "border-block-start-width",
+        "border-block-start-style",
         "border-block-start-color"
       ],
       "order": "uniqueOrder",
@@ -3072,8 +3081,8 @@
       ],
       "appliesto": "allElements",
       "computed": [
-        "border-width",
-        "border-style",
+        "border-inline-end-width",
+        "border-inline-end-style",
         "border-inline-end-color"
       ],
       "order": "uniqueOrder",
@@ -3091,7 +3100,10 @@
       ],
       "initial": "currentcolor",
       "appliesto": "allElements",
-      "computed": "computedColor",
+      "computed": [
+        "border-inline-start-color",
+        "border-inline-end-color"
+      ],
       "order": "uniqueOrder",
       "status": "standard",
       "mdn_url": "https://developer.mozilla.org/docs/Web/CSS/border-inline-color"
@@ -3107,7 +3119,10 @@
       ],
       "initial": "none",
       "appliesto": "allElements",
-      "computed": "asSpecified",
+      "computed": [
+        "border-inline-start-style",
+        "border-inline-end-style"
+      ],
       "order": "uniqueOrder",
       "status": "standard",
       "mdn_url": "https://developer.mozilla.org/docs/Web/CSS/border-inline-style"
@@ -3123,7 +3138,10 @@
       ],
       "initial": "medium",
       "appliesto": "allElements",
-      "computed": "absoluteLengthZeroIfBorderStyleNoneOrHidden",
+      "computed": [
+        "border-inline-start-width",
+        "border-inline-end-width"
+      ],
       "order": "uniqueOrder",
       "status": "standard",
       "mdn_url": "https://developer.mozilla.org/docs/Web/CSS/border-inline-width"
@@ -3196,8 +3214,8 @@
       ],
       "appliesto": "allElements",
       "computed": [
-        "border-width",
-        "border-style",
+        "border-inline-start-width",
+        "border-inline-start-style",
         "border-inline-start-color"
       ],
       "order": "uniqueOrder",
@@ -5075,7 +5093,12 @@
       ],
       "initial": "weight style small-caps position ",
       "appliesto": "allElementsAndText",
-      "computed": "asSpecified",
+      "computed": [
+        "font-synthesis-weight",
+        "font-synthesis-style",
+        "font-synthesis-small-caps",
+        "font-synthesis-position"
+      ],
       "order": "orderOfAppearance",
       "alsoAppliesTo": [
         "::first-letter",
@@ -5180,7 +5203,15 @@
       ],
       "initial": "normal",
       "appliesto": "allElementsAndText",
-      "computed": "asSpecified",
+      "computed": [
+        "font-variant-ligatures",
+        "font-variant-caps",
+        "font-variant-alternates",
+        "font-variant-numeric",
+        "font-variant-east-asian",
+        "font-variant-position",
+        "font-variant-emoji"
+      ],
       "order": "uniqueOrder",
       "alsoAppliesTo": [
         "::first-letter",
-- 
2.43.0


From a8fe782ccf8394dbcd7da8f148b4a467a100d5f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:52 +0000
Subject: [PATCH 13/51] fix: do not panic on an at-rule without a condition

---
 internal/cascadia/rules.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/internal/cascadia/rules.go b/internal/cascadia/rules.go
index da33dbb..292d1ca 100644
--- a/internal/cascadia/rules.go
+++ b/internal/cascadia/rules.go
@@ -83,9 +83,6 @@ func parseAtRuleName(data []byte, values []css.Token) (string, string) {
 	if string(data) != "@media" && string(data) != "@supports" {
 		return "", ""
 	}
-	if len(values) == 0 {
-		panic("no values")
-	}
 	ruleBuilder := strings.Builder{}
 	for _, val := range values {
 		ruleBuilder.Write(val.Data)
-- 
2.43.0


From 73530530c520d6ffef4004a359af7754f0f04a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:53 +0000
Subject: [PATCH 14/51] fix: stop at the end of a malformed stylesheet instead
 of looping forever

---
 internal/cascadia/rules.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/internal/cascadia/rules.go b/internal/cascadia/rules.go
index 292d1ca..97776ba 100644
--- a/internal/cascadia/rules.go
+++ b/internal/cascadia/rules.go
@@ -134,11 +134,13 @@ func ExtractRules(r io.Reader, inline bool) ([]CssRule, error) {
 	ruleSetErr := false
 	for {
 		gt, _, data := p.Next()
-		if ignore && gt != css.EndAtRuleGrammar {
+		// the end of the input, or a read error
+		end := gt == css.ErrorGrammar && !p.HasParseError()
+		if ignore && gt != css.EndAtRuleGrammar && !end {
 			continue
 		}
 
-		if ruleSetErr && gt != css.EndRulesetGrammar {
+		if ruleSetErr && gt != css.EndRulesetGrammar && !end {
 			continue
 		} else if ruleSetErr && gt == css.EndRulesetGrammar {
 			ruleSetErr = false
-- 
2.43.0


From 68ae15511530e1d5e37af5d086ddadfdca41c6b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:43 +0000
Subject: [PATCH 15/51] fix: keep track of nested at-rules, and tell @supports
 from @media

---
 internal/cascadia/rules.go | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/internal/cascadia/rules.go b/internal/cascadia/rules.go
index 97776ba..a27d1f4 100644
--- a/internal/cascadia/rules.go
+++ b/internal/cascadia/rules.go
@@ -87,6 +87,10 @@ func parseAtRuleName(data []byte, values []css.Token) (string, string) {
 	for _, val := range values {
 		ruleBuilder.Write(val.Data)
 	}
+	if string(data) == "@supports" {
+		// the same text may be the condition of a @media
+		return string(data), "@supports" + ruleBuilder.String()
+	}
 	return string(data), ruleBuilder.String()
 }
 
@@ -131,12 +135,17 @@ func ExtractRules(r io.Reader, inline bool) ([]CssRule, error) {
 	var currentRule CssRule
 	var atRuleCondition string
 	ignore := false
+	ignoredNested := 0           // at-rules open within the ignored one
+	var outerConditions []string // conditions of the at-rules around the current one
 	ruleSetErr := false
 	for {
 		gt, _, data := p.Next()
 		// the end of the input, or a read error
 		end := gt == css.ErrorGrammar && !p.HasParseError()
 		if ignore && gt != css.EndAtRuleGrammar && !end {
+			if gt == css.BeginAtRuleGrammar {
+				ignoredNested++
+			}
 			continue
 		}
 
@@ -159,14 +168,28 @@ func ExtractRules(r io.Reader, inline bool) ([]CssRule, error) {
 		case css.BeginAtRuleGrammar:
 			name, condition := parseAtRuleName(data, p.Values())
 			if name == "" {
-				atRuleCondition = ""
 				ignore = true
 				continue
 			}
+			outerConditions = append(outerConditions, atRuleCondition)
+			if atRuleCondition != "" {
+				condition = atRuleCondition + "{" + condition
+			}
 			atRuleCondition = condition
 		case css.EndAtRuleGrammar:
+			if ignore {
+				if ignoredNested == 0 {
+					ignore = false
+				} else {
+					ignoredNested--
+				}
+				continue
+			}
 			atRuleCondition = ""
-			ignore = false
+			if n := len(outerConditions); n > 0 {
+				atRuleCondition = outerConditions[n-1]
+				outerConditions = outerConditions[:n-1]
+			}
 		case css.BeginRulesetGrammar:
 			currentRule = CssRule{}
 			currentRule.condition = atRuleCondition
-- 
2.43.0


From fc7b56cf991d21cb69191b7bf32b946af443845d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:46 +0000
Subject: [PATCH 16/51] fix: load every selector of a selector list

---
 internal/cascadia/rules.go | 46 +++++++++++++++++++++++++++++++++++---
 1 file changed, 43 insertions(+), 3 deletions(-)

diff --git a/internal/cascadia/rules.go b/internal/cascadia/rules.go
index a27d1f4..8c55033 100644
--- a/internal/cascadia/rules.go
+++ b/internal/cascadia/rules.go
@@ -138,6 +138,9 @@ func ExtractRules(r io.Reader, inline bool) ([]CssRule, error) {
 	ignoredNested := 0           // at-rules open within the ignored one
 	var outerConditions []string // conditions of the at-rules around the current one
 	ruleSetErr := false
+	var listTokens []css.Token // tokens before a comma that are yet to be parsed
+	var listSelectors []Sel    // selectors before a comma
+	var currentSelectors []Sel // selectors of the current rule
 	for {
 		gt, _, data := p.Next()
 		// the end of the input, or a read error
@@ -190,22 +193,45 @@ func ExtractRules(r io.Reader, inline bool) ([]CssRule, error) {
 				atRuleCondition = outerConditions[n-1]
 				outerConditions = outerConditions[:n-1]
 			}
+		case css.QualifiedRuleGrammar:
+			listTokens = append(listTokens, p.Values()...)
+			if nested(listTokens) {
+				// the comma belongs to the selector, e.g., to :is(.a, .b)
+				listTokens = append(listTokens, css.Token{TokenType: css.CommaToken, Data: []byte(",")})
+				continue
+			}
+			sel, err := getSelector(data, listTokens)
+			listTokens = nil
+			if err != nil {
+				log.Println("error parsing rule:", err)
+				continue
+			}
+			listSelectors = append(listSelectors, sel)
 		case css.BeginRulesetGrammar:
 			currentRule = CssRule{}
 			currentRule.condition = atRuleCondition
-			sel, err := getSelector(data, p.Values())
+			currentSelectors = listSelectors
+			listSelectors = nil
+			sel, err := getSelector(data, append(listTokens, p.Values()...))
+			listTokens = nil
 			if err != nil {
 				log.Println("error parsing rule:", err) // TODO: LOG this better
+				if len(currentSelectors) > 0 {
+					continue
+				}
 				ruleSetErr = true
 				currentRule = CssRule{}
 				continue
 			}
-			currentRule.Selector = sel
+			currentSelectors = append(currentSelectors, sel)
 		case css.DeclarationGrammar:
 			declaration := buildDeclaration(p, data)
 			currentRule.Declarations = append(currentRule.Declarations, declaration)
 		case css.EndRulesetGrammar:
-			rules = append(rules, currentRule)
+			for _, sel := range currentSelectors {
+				currentRule.Selector = sel
+				rules = append(rules, currentRule)
+			}
 		case css.CustomPropertyGrammar:
 			declaration := buildDeclaration(p, data)
 			currentRule.Declarations = append(currentRule.Declarations, declaration)
@@ -213,6 +239,20 @@ func ExtractRules(r io.Reader, inline bool) ([]CssRule, error) {
 	}
 }
 
+// nested reports whether the tokens end within parentheses or brackets.
+func nested(tokens []css.Token) bool {
+	level := 0
+	for _, token := range tokens {
+		switch token.TokenType {
+		case css.FunctionToken, css.LeftParenthesisToken, css.LeftBraceToken, css.LeftBracketToken:
+			level++
+		case css.RightParenthesisToken, css.RightBraceToken, css.RightBracketToken:
+			level--
+		}
+	}
+	return level > 0
+}
+
 func buildDeclaration(p *css.Parser, data []byte) CssDeclaration {
 	vals := strings.Builder{}
 	for _, val := range p.Values() {
-- 
2.43.0


From b5b62c092c5c244e949acf0b82ee5d135a501433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:47 +0000
Subject: [PATCH 17/51] fix: keep a class whose rule has no declarations

---
 merge.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/merge.go b/merge.go
index 4af54bf..ca7d264 100644
--- a/merge.go
+++ b/merge.go
@@ -265,7 +265,8 @@ func (r *Merger) Merge(inClass string) string {
 	customVarsToVars := make(map[string][]string, len(split))    // map of custom vars to the custom vars that their definition uses
 	for _, class := range split {
 		rule, ok := r.rules[class]
-		if !ok {
+		if !ok || len(rule.Declarations) == 0 {
+			// a rule without declarations does not conflict with anything
 			// log.Println("rule not found for class:", class)
 			keepClasses = append(keepClasses, class)
 			continue
-- 
2.43.0


From 6540bef1cdc203b0d80ab85310b3acb5713eba25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:47 +0000
Subject: [PATCH 18/51] fix: do not replace the cached items while they are
 used

---
 cache.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cache.go b/cache.go
index 5c9f60c..17d523b 100644
--- a/cache.go
+++ b/cache.go
@@ -7,7 +7,7 @@ import (
 // SimpleCache is a simple in-memory cache that uses a sync.Map to store key-value pairs.
 // It is safe for concurrent use, but it is grow-only.
 type SimpleCache struct {
-	mu    sync.Mutex
+	mu    sync.RWMutex // held for reading when items is used, for writing when it is replaced
 	items sync.Map
 }
 
@@ -18,6 +18,8 @@ func NewCache() *SimpleCache {
 
 // Get returns the value for the given key, and a boolean indicating whether the key was found.
 func (c *SimpleCache) Get(key string) (string, bool) {
+	c.mu.RLock()
+	defer c.mu.RUnlock()
 	if value, ok := c.items.Load(key); ok {
 		return value.(string), true
 	}
@@ -26,6 +28,8 @@ func (c *SimpleCache) Get(key string) (string, bool) {
 
 // Set sets the value for the given key.
 func (c *SimpleCache) Set(key string, data string) {
+	c.mu.RLock()
+	defer c.mu.RUnlock()
 	c.items.Store(key, data)
 }
 
-- 
2.43.0


From 8f59e157a4174ec016acba1fd45cbcc55b221d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:13 +0000
Subject: [PATCH 19/51] fix: do not merge while rules are being added

---
 merge.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/merge.go b/merge.go
index ca7d264..a2a7b50 100644
--- a/merge.go
+++ b/merge.go
@@ -23,7 +23,7 @@ type Cache interface {
 
 // Merger is a struct that resolves conflicting css rules.
 type Merger struct {
-	mu         sync.Mutex // mutex is only used when adding rules
+	mu         sync.RWMutex // held for writing when adding rules, for reading when merging
 	rules      map[string]cascadia.CssRule
 	cache      Cache
 	properties map[string]props.Property
@@ -91,12 +91,12 @@ func walk(selector cascadia.Sel) []cascadia.Sel {
 // If the cache is not nil, it is cleared.
 // New rules with the same class will overwrite existing rules.
 func (r *Merger) AddRules(reader io.Reader, inline bool) error {
+	rules, err := cascadia.ExtractRules(reader, inline)
 	r.mu.Lock()
 	defer r.mu.Unlock()
 	if r.cache != nil {
 		r.cache.Clear()
 	}
-	rules, err := cascadia.ExtractRules(reader, inline)
 	if err != nil {
 		return err
 	}
@@ -252,6 +252,10 @@ func (r *Merger) Merge(inClass string) string {
 		return inClass
 	}
 
+	// also covers storing the result, so that a result for old rules is not stored after new ones are added
+	r.mu.RLock()
+	defer r.mu.RUnlock()
+
 	keepClasses := make([]string, 0, len(split))
 	selectorToClass := make(map[string]string, len(split))
 
-- 
2.43.0


From 35cd137cf8fd1995aa87527943812aec9e552c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:53 +0000
Subject: [PATCH 20/51] fix: serialize names and strings so that they can be
 parsed again

---
 internal/cascadia/serialize.go | 44 +++++++++++++++++++++++++++++-----
 1 file changed, 38 insertions(+), 6 deletions(-)

diff --git a/internal/cascadia/serialize.go b/internal/cascadia/serialize.go
index 45186fe..296001b 100644
--- a/internal/cascadia/serialize.go
+++ b/internal/cascadia/serialize.go
@@ -48,10 +48,42 @@ func init() {
 }
 
 // espace special CSS char
-func escape(s string) string { return specialCharReplacer.Replace(s) }
+func escape(s string) string {
+	if s != "" && '0' <= s[0] && s[0] <= '9' {
+		// an identifier does not start with a digit
+		return fmt.Sprintf(`\%x `, s[0]) + escapeControl(specialCharReplacer.Replace(s[1:]))
+	}
+	return escapeControl(specialCharReplacer.Replace(s))
+}
+
+// escapeControl escapes control characters, which can only be written in hex
+func escapeControl(s string) string {
+	var b strings.Builder
+	for i := 0; i < len(s); i++ {
+		if s[i] < ' ' || s[i] == 0x7f {
+			fmt.Fprintf(&b, `\%x `, s[i])
+			continue
+		}
+		b.WriteByte(s[i])
+	}
+	return b.String()
+}
+
+// escapeName escapes like escape, except for hyphens within the name
+func escapeName(s string) string {
+	if s == "" {
+		return s
+	}
+	return escape(s[:1]) + escapeControl(strings.ReplaceAll(specialCharReplacer.Replace(s[1:]), `\-`, "-"))
+}
+
+var stringReplacer = strings.NewReplacer(`"`, `\"`, `\`, `\\`)
+
+// quote returns a CSS string
+func quote(s string) string { return `"` + escapeControl(stringReplacer.Replace(s)) + `"` }
 
 func (c TagSelector) String() string {
-	return c.tag
+	return escapeName(c.tag)
 }
 
 func (c IdSelector) String() string {
@@ -67,7 +99,7 @@ func (c AttrSelector) String() string {
 	if c.operation == "#=" {
 		val = c.regexp.String()
 	} else if c.operation != "" {
-		val = fmt.Sprintf(`"%s"`, val)
+		val = quote(val)
 	}
 
 	ignoreCase := ""
@@ -76,7 +108,7 @@ func (c AttrSelector) String() string {
 		ignoreCase = " i"
 	}
 
-	return fmt.Sprintf(`[%s%s%s%s]`, c.key, c.operation, val, ignoreCase)
+	return fmt.Sprintf(`[%s%s%s%s]`, escapeName(c.key), c.operation, val, ignoreCase)
 }
 
 func (c IsPseudoClassSelector) String() string {
@@ -96,7 +128,7 @@ func (c ContainsPseudoClassSelector) String() string {
 	if c.own {
 		s += "Own"
 	}
-	return fmt.Sprintf(`:%s("%s")`, s, c.value)
+	return fmt.Sprintf(`:%s(%s)`, s, quote(c.value))
 }
 
 func (c RegexpPseudoClassSelector) String() string {
@@ -162,7 +194,7 @@ func (c LinkPseudoClassSelector) String() string {
 }
 
 func (c LangPseudoClassSelector) String() string {
-	return fmt.Sprintf(":lang(%s)", c.lang)
+	return fmt.Sprintf(":lang(%s)", escapeName(c.lang))
 }
 
 func (c EnabledPseudoClassSelector) String() string {
-- 
2.43.0


From 70b446dd9d45c93ed2978030098ec180075b47c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:54 +0000
Subject: [PATCH 21/51] fix: serialize :popover-open under its name

---
 internal/cascadia/serialize.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/cascadia/serialize.go b/internal/cascadia/serialize.go
index 296001b..0ce3c88 100644
--- a/internal/cascadia/serialize.go
+++ b/internal/cascadia/serialize.go
@@ -234,7 +234,7 @@ func (c ReadOnlyPseudoClassSelector) String() string {
 }
 
 func (c PopoverPseudoClassSelector) String() string {
-	return ":popover"
+	return ":popover-open"
 }
 
 func (c abstractPseudoClass) String() string {
-- 
2.43.0


From beb2b556f797a3ef32d24ce08cf74daa6d93407a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:54 +0000
Subject: [PATCH 22/51] fix: accept *|* at the end of a selector

---
 internal/cascadia/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/cascadia/parser.go b/internal/cascadia/parser.go
index 4591ef9..ae46efe 100644
--- a/internal/cascadia/parser.go
+++ b/internal/cascadia/parser.go
@@ -820,7 +820,7 @@ func (p *parser) parseSimpleSelectorSequence() (Sel, error) {
 	case '*':
 		// It's the universal selector. Just skip over it, since it doesn't affect the meaning.
 		p.i++
-		if p.i+2 < len(p.s) && p.s[p.i:p.i+2] == "|*" { // other version of universal selector
+		if p.i+2 <= len(p.s) && p.s[p.i:p.i+2] == "|*" { // other version of universal selector
 			p.i += 2
 		}
 	case '#', '.', '[', ':':
-- 
2.43.0


From a23f65d35819682489d34049f7a065a6901f80ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:09 +0000
Subject: [PATCH 23/51] fix: an empty value matches no attribute with ~=, ^=,
 $= and *=

---
 internal/cascadia/selector.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/internal/cascadia/selector.go b/internal/cascadia/selector.go
index 9359b9b..ff18413 100644
--- a/internal/cascadia/selector.go
+++ b/internal/cascadia/selector.go
@@ -291,6 +291,9 @@ func attributeNotEqualMatch(key, val string, n *html.Node, ignoreCase bool) bool
 
 // returns true if s is a whitespace-separated list that includes val.
 func matchInclude(val string, s string, ignoreCase bool) bool {
+	if val == "" {
+		return false
+	}
 	for s != "" {
 		i := strings.IndexAny(s, " \t\r\n\f")
 		if i == -1 {
@@ -326,7 +329,7 @@ func attributeDashMatch(key, val string, n *html.Node, ignoreCase bool) bool {
 func attributePrefixMatch(key, val string, n *html.Node, ignoreCase bool) bool {
 	return matchAttribute(n, key,
 		func(s string) bool {
-			if strings.TrimSpace(s) == "" {
+			if strings.TrimSpace(s) == "" || val == "" {
 				return false
 			}
 			if ignoreCase {
@@ -341,7 +344,7 @@ func attributePrefixMatch(key, val string, n *html.Node, ignoreCase bool) bool {
 func attributeSuffixMatch(key, val string, n *html.Node, ignoreCase bool) bool {
 	return matchAttribute(n, key,
 		func(s string) bool {
-			if strings.TrimSpace(s) == "" {
+			if strings.TrimSpace(s) == "" || val == "" {
 				return false
 			}
 			if ignoreCase {
@@ -356,7 +359,7 @@ func attributeSuffixMatch(key, val string, n *html.Node, ignoreCase bool) bool {
 func attributeSubstringMatch(key, val string, n *html.Node, ignoreCase bool) bool {
 	return matchAttribute(n, key,
 		func(s string) bool {
-			if strings.TrimSpace(s) == "" {
+			if strings.TrimSpace(s) == "" || val == "" {
 				return false
 			}
 			if ignoreCase {
-- 
2.43.0


From fdca0eab78d3de7fefbbad976599457ee024a8ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:10 +0000
Subject: [PATCH 24/51] fix: :lang() compares the language of the nearest
 element that has one

---
 internal/cascadia/pseudo_classes.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/cascadia/pseudo_classes.go b/internal/cascadia/pseudo_classes.go
index 019332d..eba1c2d 100644
--- a/internal/cascadia/pseudo_classes.go
+++ b/internal/cascadia/pseudo_classes.go
@@ -470,10 +470,14 @@ type LangPseudoClassSelector struct {
 }
 
 func (s LangPseudoClassSelector) Match(n *html.Node) bool {
+	if n.Type != html.ElementNode {
+		return false
+	}
 	own := matchAttribute(n, "lang", func(val string) bool {
+		val = toLowerASCII(val)
 		return val == s.lang || strings.HasPrefix(val, s.lang+"-")
 	})
-	if n.Parent == nil {
+	if n.Parent == nil || hasAttr(n, "lang") {
 		return own
 	}
 	return own || s.Match(n.Parent)
-- 
2.43.0


From 92dbb99ecc3e82b8b02bef97d8c6be0813984b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:20 +0000
Subject: [PATCH 25/51] fix: :contains() and :matches() select elements only

---
 internal/cascadia/pseudo_classes.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/cascadia/pseudo_classes.go b/internal/cascadia/pseudo_classes.go
index eba1c2d..a4d549f 100644
--- a/internal/cascadia/pseudo_classes.go
+++ b/internal/cascadia/pseudo_classes.go
@@ -192,6 +192,9 @@ type ContainsPseudoClassSelector struct {
 }
 
 func (s ContainsPseudoClassSelector) Match(n *html.Node) bool {
+	if n.Type != html.ElementNode {
+		return false
+	}
 	var text string
 	if s.own {
 		// matches nodes that directly contain the given text
@@ -210,6 +213,9 @@ type RegexpPseudoClassSelector struct {
 }
 
 func (s RegexpPseudoClassSelector) Match(n *html.Node) bool {
+	if n.Type != html.ElementNode {
+		return false
+	}
 	var text string
 	if s.own {
 		// matches nodes whose text directly matches the specified regular expression
-- 
2.43.0


From daa2e86e9ad65b7cf96e5b1bd91c5b78ad379aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:24 +0000
Subject: [PATCH 26/51] fix: the grid shorthand does not set the gaps

---
 internal/props/gen/properties.json | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/internal/props/gen/properties.json b/internal/props/gen/properties.json
index ca44458..3927d20 100644
--- a/internal/props/gen/properties.json
+++ b/internal/props/gen/properties.json
@@ -5473,11 +5473,7 @@
         "grid-template-areas",
         "grid-auto-rows",
         "grid-auto-columns",
-        "grid-auto-flow",
-        "grid-column-gap",
-        "grid-row-gap",
-        "column-gap",
-        "row-gap"
+        "grid-auto-flow"
       ],
       "order": "uniqueOrder",
       "status": "standard",
-- 
2.43.0


From c3f20a0d8ce0cc95b64b5b41b9a0012886ed8fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:00 +0000
Subject: [PATCH 27/51] fix: accept two hyphens as the start of a name

'.--', '.--1' and the like are legal class selectors.
---
 internal/cascadia/parser.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/internal/cascadia/parser.go b/internal/cascadia/parser.go
index ae46efe..d1e3789 100644
--- a/internal/cascadia/parser.go
+++ b/internal/cascadia/parser.go
@@ -134,11 +134,16 @@ func (p *parser) parseIdentifier() (result string, err error) {
 		numPrefix++
 	}
 
+	if numPrefix > 1 && (len(p.s) <= p.i || !nameChar(p.s[p.i]) && p.s[p.i] != '\\') {
+		// two hyphens are an identifier already
+		return strings.Repeat(string(prefix), numPrefix), nil
+	}
+
 	if len(p.s) <= p.i {
 		return "", errors.New("expected identifier, found EOF instead")
 	}
 
-	if c := p.s[p.i]; !(nameStart(c) || c == '\\') {
+	if c := p.s[p.i]; numPrefix < 2 && !(nameStart(c) || c == '\\') {
 		return "", fmt.Errorf("expected identifier, found %c instead", c)
 	}
 
-- 
2.43.0


From 13738a0b2b2a9d175aa79d1fa7613005045cf431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:21 +0000
Subject: [PATCH 28/51] fix: compare the pseudo-classes of any selector in any
 order

'.group .a:hover:focus' and '.group .b:focus:hover' apply under the same condition, and so do
':is(.group .a):hover' and ':is(.group .b):hover'.
---
 internal/cascadia/selector.go | 28 ++++++++++++++++++++++++++++
 merge.go                      |  7 ++++++-
 2 files changed, 34 insertions(+), 1 deletion(-)

diff --git a/internal/cascadia/selector.go b/internal/cascadia/selector.go
index ff18413..e8ee626 100644
--- a/internal/cascadia/selector.go
+++ b/internal/cascadia/selector.go
@@ -449,6 +449,34 @@ func (c CompoundSelector) PseudoElementsString() string {
 	return strings.Join(strs, "")
 }
 
+// SortPseudoClasses returns the selector with the pseudo-classes of each compound selector in a fixed order.
+// Their order does not mean anything.
+func SortPseudoClasses(sel Sel) Sel {
+	switch t := sel.(type) {
+	case CombinedSelector:
+		t.first = SortPseudoClasses(t.first)
+		if t.second != nil {
+			t.second = SortPseudoClasses(t.second)
+		}
+		return t
+	case CompoundSelector:
+		t.selectors = slices.Clone(t.selectors)
+		slices.SortStableFunc(t.selectors, func(a, b Sel) int {
+			switch aPseudo, bPseudo := IsPseudoElement(a), IsPseudoElement(b); {
+			case aPseudo && bPseudo:
+				return strings.Compare(a.String(), b.String())
+			case aPseudo:
+				return 1
+			case bPseudo:
+				return -1
+			}
+			return 0
+		})
+		return t
+	}
+	return sel
+}
+
 func (c CompoundSelector) Selectors() []Sel {
 	return c.selectors
 }
diff --git a/merge.go b/merge.go
index a2a7b50..1ad1036 100644
--- a/merge.go
+++ b/merge.go
@@ -211,7 +211,12 @@ func propModifier(class string, rule cascadia.CssRule) string {
 		return rule.GetCondition()
 	} else {
 		// use the selector with the class name removed to codify what the selector is being applied to
-		return rule.GetCondition() + removeClass(class, rule.Selector.String())
+		condition := rule.GetCondition()
+		if t, ok := rule.Selector.(cascadia.CompoundSelector); ok {
+			// the pseudo-classes are part of the selector
+			condition = strings.TrimSuffix(condition, t.PseudoElementsString())
+		}
+		return condition + removeClass(class, cascadia.SortPseudoClasses(rule.Selector).String())
 	}
 }
 
-- 
2.43.0


From 171dfbbfa27f2bbcfdfccf0fc835bfbd7688e4d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:46 +0000
Subject: [PATCH 29/51] fix: accept an empty regular expression at the end of a
 selector as anywhere else

---
 internal/cascadia/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/cascadia/parser.go b/internal/cascadia/parser.go
index d1e3789..e9f98f8 100644
--- a/internal/cascadia/parser.go
+++ b/internal/cascadia/parser.go
@@ -254,7 +254,7 @@ loop:
 // unmatched closing ')' or ']' which is not consumed
 func (p *parser) parseRegex() (rx *regexp.Regexp, err error) {
 	i := p.i
-	if len(p.s) < i+2 {
+	if len(p.s) <= i {
 		return nil, errors.New("expected regular expression, found EOF instead")
 	}
 
-- 
2.43.0


From 94637fc165c9d87fc42a09db66a4e39875a66f4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:46 +0000
Subject: [PATCH 30/51] fix: ignore the case of ASCII letters only in attribute
 selectors with the flag i

---
 internal/cascadia/selector.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/internal/cascadia/selector.go b/internal/cascadia/selector.go
index e8ee626..e297620 100644
--- a/internal/cascadia/selector.go
+++ b/internal/cascadia/selector.go
@@ -256,7 +256,7 @@ func (t AttrSelector) Match(n *html.Node) bool {
 // the real attribute is the attribute value found in the code parsed
 func matchInsensitiveValue(userAttr string, realAttr string, ignoreCase bool) bool {
 	if ignoreCase {
-		return strings.EqualFold(userAttr, realAttr)
+		return toLowerASCII(userAttr) == toLowerASCII(realAttr)
 	}
 	return userAttr == realAttr
 
@@ -333,7 +333,7 @@ func attributePrefixMatch(key, val string, n *html.Node, ignoreCase bool) bool {
 				return false
 			}
 			if ignoreCase {
-				return strings.HasPrefix(strings.ToLower(s), strings.ToLower(val))
+				return strings.HasPrefix(toLowerASCII(s), toLowerASCII(val))
 			}
 			return strings.HasPrefix(s, val)
 		})
@@ -348,7 +348,7 @@ func attributeSuffixMatch(key, val string, n *html.Node, ignoreCase bool) bool {
 				return false
 			}
 			if ignoreCase {
-				return strings.HasSuffix(strings.ToLower(s), strings.ToLower(val))
+				return strings.HasSuffix(toLowerASCII(s), toLowerASCII(val))
 			}
 			return strings.HasSuffix(s, val)
 		})
@@ -363,7 +363,7 @@ func attributeSubstringMatch(key, val string, n *html.Node, ignoreCase bool) boo
 				return false
 			}
 			if ignoreCase {
-				return strings.Contains(strings.ToLower(s), strings.ToLower(val))
+				return strings.Contains(toLowerASCII(s), toLowerASCII(val))
 			}
 			return strings.Contains(s, val)
 		})
-- 
2.43.0


From e6eca4b6322bb61407aa048b84260add44f31ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:46 +0000
Subject: [PATCH 31/51] fix: only ASCII white space leaves an element :empty

---
 internal/cascadia/pseudo_classes.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/cascadia/pseudo_classes.go b/internal/cascadia/pseudo_classes.go
index a4d549f..d0a57a2 100644
--- a/internal/cascadia/pseudo_classes.go
+++ b/internal/cascadia/pseudo_classes.go
@@ -431,7 +431,7 @@ func (s EmptyElementPseudoClassSelector) Match(n *html.Node) bool {
 		case html.ElementNode:
 			return false
 		case html.TextNode:
-			if strings.TrimSpace(nodeText(c)) == "" {
+			if strings.Trim(c.Data, " \t\r\n\f") == "" {
 				continue
 			} else {
 				return false
-- 
2.43.0


From a18fa281c79f93193b003d5053153100b208a47d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:46 +0000
Subject: [PATCH 32/51] fix: an option is disabled by its optgroup, not by a
 fieldset

---
 internal/cascadia/pseudo_classes.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/internal/cascadia/pseudo_classes.go b/internal/cascadia/pseudo_classes.go
index d0a57a2..fe1f690 100644
--- a/internal/cascadia/pseudo_classes.go
+++ b/internal/cascadia/pseudo_classes.go
@@ -502,8 +502,10 @@ func (s EnabledPseudoClassSelector) Match(n *html.Node) bool {
 		return hasAttr(n, "href")
 	case atom.Optgroup, atom.Menuitem, atom.Fieldset:
 		return !hasAttr(n, "disabled")
-	case atom.Button, atom.Input, atom.Select, atom.Textarea, atom.Option:
+	case atom.Button, atom.Input, atom.Select, atom.Textarea:
 		return !hasAttr(n, "disabled") && !inDisabledFieldset(n)
+	case atom.Option:
+		return !hasAttr(n, "disabled") && !inDisabledOptgroup(n)
 	}
 	return false
 }
@@ -519,8 +521,10 @@ func (s DisabledPseudoClassSelector) Match(n *html.Node) bool {
 	switch n.DataAtom {
 	case atom.Optgroup, atom.Menuitem, atom.Fieldset:
 		return hasAttr(n, "disabled")
-	case atom.Button, atom.Input, atom.Select, atom.Textarea, atom.Option:
+	case atom.Button, atom.Input, atom.Select, atom.Textarea:
 		return hasAttr(n, "disabled") || inDisabledFieldset(n)
+	case atom.Option:
+		return hasAttr(n, "disabled") || inDisabledOptgroup(n)
 	}
 	return false
 }
@@ -534,6 +538,10 @@ func hasLegendInPreviousSiblings(n *html.Node) bool {
 	return false
 }
 
+func inDisabledOptgroup(n *html.Node) bool {
+	return n.Parent != nil && n.Parent.DataAtom == atom.Optgroup && hasAttr(n.Parent, "disabled")
+}
+
 func inDisabledFieldset(n *html.Node) bool {
 	if n.Parent == nil {
 		return false
-- 
2.43.0


From 4b661f7176fc59ff67d103d904dfcd6d16b04da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:41 +0000
Subject: [PATCH 33/51] fix: the argument of :has is relative to the element

---
 internal/cascadia/pseudo_classes.go | 45 +++++++++++++++++++++++++++--
 1 file changed, 42 insertions(+), 3 deletions(-)

diff --git a/internal/cascadia/pseudo_classes.go b/internal/cascadia/pseudo_classes.go
index fe1f690..af19c69 100644
--- a/internal/cascadia/pseudo_classes.go
+++ b/internal/cascadia/pseudo_classes.go
@@ -136,7 +136,7 @@ func (s RelativePseudoClassSelector) Match(n *html.Node) bool {
 		return !s.match.Match(n)
 	case "has":
 		//  matches elements with any descendant that matches a.
-		return hasDescendantMatch(n, s.match)
+		return hasDescendantMatch(n, n, s.match)
 	case "haschild":
 		// matches elements with a child that matches a.
 		return hasChildMatch(n, s.match)
@@ -158,15 +158,54 @@ func hasChildMatch(n *html.Node, a Matcher) bool {
 // hasDescendantMatch performs a depth-first search of n's descendants,
 // testing whether any of them match a. It returns true as soon as a match is
 // found, or false if no match is found.
-func hasDescendantMatch(n *html.Node, a Matcher) bool {
+// All parts of a have to match descendants of scope.
+func hasDescendantMatch(n, scope *html.Node, a SelectorGroup) bool {
 	for c := n.FirstChild; c != nil; c = c.NextSibling {
-		if a.Match(c) || (c.Type == html.ElementNode && hasDescendantMatch(c, a)) {
+		for _, sel := range a {
+			if (scopedSelector{sel, scope}).Match(c) {
+				return true
+			}
+		}
+		if c.Type == html.ElementNode && hasDescendantMatch(c, scope, a) {
 			return true
 		}
 	}
 	return false
 }
 
+// scopedSelector matches the descendants of scope that sel matches without
+// regard to scope and what is outside of it.
+type scopedSelector struct {
+	sel   Sel
+	scope *html.Node
+}
+
+func (s scopedSelector) Match(n *html.Node) bool {
+	inside := false
+	for p := n.Parent; p != nil && !inside; p = p.Parent {
+		inside = p == s.scope
+	}
+	if !inside {
+		return false
+	}
+	c, ok := s.sel.(CombinedSelector)
+	if !ok || c.second == nil {
+		return s.sel.Match(n)
+	}
+	first := scopedSelector{c.first, s.scope}
+	switch c.combinator {
+	case ' ':
+		return descendantMatch(first, c.second, n)
+	case '>':
+		return childMatch(first, c.second, n)
+	case '+':
+		return siblingMatch(first, c.second, true, n)
+	case '~':
+		return siblingMatch(first, c.second, false, n)
+	}
+	return c.Match(n)
+}
+
 // Specificity returns the specificity of the most specific selectors
 // in the pseudo-class arguments.
 // See https://www.w3.org/TR/selectors/#specificity-rules
-- 
2.43.0


From e6faf8369948ee98f9bceda1c0c3c57d71dbd7d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:22 +0000
Subject: [PATCH 34/51] fix: class names that begin or end with Unicode white
 space are kept as they are

---
 merge.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/merge.go b/merge.go
index 1ad1036..057a5a9 100644
--- a/merge.go
+++ b/merge.go
@@ -252,7 +252,7 @@ func (r *Merger) Merge(inClass string) string {
 			return val
 		}
 	}
-	split := strings.Split(strings.TrimSpace(inClass), " ")
+	split := strings.Split(strings.Trim(inClass, " \t\n\r\f"), " ")
 	if len(split) < 2 {
 		return inClass
 	}
-- 
2.43.0


From ae0e3c06f73c006a060dc1e66ad8b1097342a463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:12 +0000
Subject: [PATCH 35/51] fix: CRLF after a code point escape is part of the
 escape

---
 internal/cascadia/rules.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/internal/cascadia/rules.go b/internal/cascadia/rules.go
index 8c55033..33cb34d 100644
--- a/internal/cascadia/rules.go
+++ b/internal/cascadia/rules.go
@@ -129,7 +129,12 @@ func normalizeWhitespace(s string) string {
 }
 
 func ExtractRules(r io.Reader, inline bool) ([]CssRule, error) {
-	p := css.NewParser(parse.NewInput(r), inline)
+	input := parse.NewInput(r)
+	if content := input.Bytes(); bytes.Contains(content, []byte("\r\n")) {
+		// CRLF is a single line end, e.g., after an escape
+		input = parse.NewInputBytes(bytes.ReplaceAll(content, []byte("\r\n"), []byte("\n")))
+	}
+	p := css.NewParser(input, inline)
 	rules := make([]CssRule, 0)
 	var err error
 	var currentRule CssRule
-- 
2.43.0


From 983451520f835242a25a2a8c2a377f0ba191c253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:49 +0000
Subject: [PATCH 36/51] fix: remove the class itself from a selector context,
 not the same text elsewhere

---
 internal/cascadia/selector.go | 43 +++++++++++++++++++++++++++++++++++
 merge.go                      | 20 +---------------
 2 files changed, 44 insertions(+), 19 deletions(-)

diff --git a/internal/cascadia/selector.go b/internal/cascadia/selector.go
index e297620..1096be4 100644
--- a/internal/cascadia/selector.go
+++ b/internal/cascadia/selector.go
@@ -477,6 +477,49 @@ func SortPseudoClasses(sel Sel) Sel {
 	return sel
 }
 
+// RemoveClass returns the selector with an empty name in place of the class, where the class is part of
+// the selector itself or of the arguments of :is() or :where(). Only the first occurrence is replaced.
+func RemoveClass(class string, sel Sel) Sel {
+	sel, _ = removeClass(class, sel)
+	return sel
+}
+
+func removeClass(class string, sel Sel) (Sel, bool) {
+	var found bool
+	switch t := sel.(type) {
+	case ClassSelector:
+		if t.Class == class {
+			return ClassSelector{}, true
+		}
+	case CombinedSelector:
+		if t.first, found = removeClass(class, t.first); !found {
+			t.second, found = removeClass(class, t.second)
+		}
+		return t, found
+	case CompoundSelector:
+		t.selectors, found = removeClassFromAny(class, t.selectors)
+		return t, found
+	case IsPseudoClassSelector:
+		t.match, found = removeClassFromAny(class, t.match)
+		return t, found
+	case WherePseudoClassSelector:
+		t.match, found = removeClassFromAny(class, t.match)
+		return t, found
+	}
+	return sel, false
+}
+
+func removeClassFromAny(class string, sels []Sel) ([]Sel, bool) {
+	for i, sel := range sels {
+		if removed, found := removeClass(class, sel); found {
+			sels = slices.Clone(sels)
+			sels[i] = removed
+			return sels, true
+		}
+	}
+	return sels, false
+}
+
 func (c CompoundSelector) Selectors() []Sel {
 	return c.selectors
 }
diff --git a/merge.go b/merge.go
index 057a5a9..5ceced4 100644
--- a/merge.go
+++ b/merge.go
@@ -216,28 +216,10 @@ func propModifier(class string, rule cascadia.CssRule) string {
 			// the pseudo-classes are part of the selector
 			condition = strings.TrimSuffix(condition, t.PseudoElementsString())
 		}
-		return condition + removeClass(class, cascadia.SortPseudoClasses(rule.Selector).String())
+		return condition + cascadia.SortPseudoClasses(cascadia.RemoveClass(class, rule.Selector)).String()
 	}
 }
 
-// removeClass removes the name of a class from a serialized selector.
-// The name may also be part of another name in the selector (e.g., "btn" in ".btn-group .btn").
-func removeClass(class string, selector string) string {
-	classSelector := cascadia.ClassSelector{Class: class}.String()
-	for i := 0; i < len(selector); i++ {
-		if !strings.HasPrefix(selector[i:], classSelector) || (i > 0 && selector[i-1] == '\\') {
-			continue
-		}
-		end := i + len(classSelector)
-		if end == len(selector) || !nameContinues.MatchString(selector[end:]) {
-			return selector[:i+1] + selector[end:]
-		}
-	}
-	return selector
-}
-
-var nameContinues = regexp.MustCompile(`^[\w\-\\\\]|^[^\x00-\x7F]`) // matches if a serialized css name goes on
-
 // Merge resolves conflicting css class rules.
 // It takes a string of space-separated class names.
 // Returns a string of space-separated class names with the conflicting classes removed.
-- 
2.43.0


From 59ab4d9f74a47f0c8763c514d9267743824fbb81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:06 +0000
Subject: [PATCH 37/51] fix: loading from a reader with Bytes() does not write
 into the caller's memory

The parser lowercases names in place and puts a NUL after the last byte, so that
loading bytes.NewBuffer(sheet[:n]) broke what follows in sheet.
---
 internal/cascadia/rules.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/cascadia/rules.go b/internal/cascadia/rules.go
index 33cb34d..5dd9a57 100644
--- a/internal/cascadia/rules.go
+++ b/internal/cascadia/rules.go
@@ -129,6 +129,10 @@ func normalizeWhitespace(s string) string {
 }
 
 func ExtractRules(r io.Reader, inline bool) ([]CssRule, error) {
+	if _, ok := r.(interface{ Bytes() []byte }); ok {
+		// the parser would write into, and beyond, the bytes of the caller
+		r = struct{ io.Reader }{r}
+	}
 	input := parse.NewInput(r)
 	if content := input.Bytes(); bytes.Contains(content, []byte("\r\n")) {
 		// CRLF is a single line end, e.g., after an escape
-- 
2.43.0


From 83aa97003f60b03df2701868aa7a0a2cee1c1d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:23 +0000
Subject: [PATCH 38/51] fix: read escapes in names of properties, keep those in
 values

---
 internal/cascadia/rules.go     | 43 ++++++++++++++--------------------
 internal/cascadia/serialize.go | 10 ++++++++
 merge.go                       |  6 ++---
 3 files changed, 30 insertions(+), 29 deletions(-)

diff --git a/internal/cascadia/rules.go b/internal/cascadia/rules.go
index 5dd9a57..b794e54 100644
--- a/internal/cascadia/rules.go
+++ b/internal/cascadia/rules.go
@@ -53,7 +53,7 @@ func (r CssRule) GetCondition() string {
 func (r CssRule) ToCssFormat() string {
 	dec := strings.Builder{}
 	for i, d := range r.Declarations {
-		dec.WriteString(fmt.Sprintf("%s: %s;", d.Property, d.Value))
+		dec.WriteString(fmt.Sprintf("%s: %s;", escapeProperty(d.Property), d.Value))
 		if i < len(r.Declarations)-1 {
 			dec.WriteByte(' ')
 		}
@@ -94,37 +94,28 @@ func parseAtRuleName(data []byte, values []css.Token) (string, string) {
 	return string(data), ruleBuilder.String()
 }
 
+// CssUnescape replaces the escapes in a name by what they stand for.
 func CssUnescape(b []byte) string {
-
-	var buf bytes.Buffer
-
-	var i int
-	for i = 0; i < len(b); i++ {
-		if b[i] == '\\' {
-			// set up buf with the stuff we've already scanned
-			buf.Grow(len(b))
-			buf.Write(b[:i])
-			goto foundEsc
-		}
-		continue
-	}
-	// no escaping needed
-	return string(b)
-
-foundEsc:
-	inEsc := false
-	for ; i < len(b); i++ {
-		if b[i] == '\\' && !inEsc {
-			inEsc = true
-			continue
+	p := &parser{s: string(b)}
+	var buf strings.Builder
+	for p.i < len(p.s) {
+		if p.s[p.i] == '\\' {
+			if c, err := p.parseEscape(); err == nil {
+				buf.WriteString(c)
+				continue
+			}
 		}
-		buf.WriteByte(b[i])
-		inEsc = false
+		buf.WriteByte(p.s[p.i])
+		p.i++
 	}
 	return buf.String()
 }
 
 func normalizeWhitespace(s string) string {
+	if strings.Contains(s, `\`) {
+		// white space may belong to an escape
+		return strings.TrimLeft(s, " \t\n\f\r")
+	}
 	return strings.Join(strings.Fields(s), " ")
 }
 
@@ -268,6 +259,6 @@ func buildDeclaration(p *css.Parser, data []byte) CssDeclaration {
 		vals.Write(val.Data)
 	}
 	s := normalizeWhitespace(vals.String())
-	declaration := CssDeclaration{Property: CssUnescape(data), Value: CssUnescape([]byte(s))}
+	declaration := CssDeclaration{Property: CssUnescape(data), Value: s}
 	return declaration
 }
diff --git a/internal/cascadia/serialize.go b/internal/cascadia/serialize.go
index 0ce3c88..01eb33d 100644
--- a/internal/cascadia/serialize.go
+++ b/internal/cascadia/serialize.go
@@ -77,6 +77,16 @@ func escapeName(s string) string {
 	return escape(s[:1]) + escapeControl(strings.ReplaceAll(specialCharReplacer.Replace(s[1:]), `\-`, "-"))
 }
 
+// escapeProperty escapes the name of a property
+func escapeProperty(s string) string {
+	for _, prefix := range []string{"--", "-"} {
+		if strings.HasPrefix(s, prefix) {
+			return prefix + escapeName(s[len(prefix):])
+		}
+	}
+	return escapeName(s)
+}
+
 var stringReplacer = strings.NewReplacer(`"`, `\"`, `\`, `\\`)
 
 // quote returns a CSS string
diff --git a/merge.go b/merge.go
index 5ceced4..7883975 100644
--- a/merge.go
+++ b/merge.go
@@ -152,8 +152,8 @@ func (r *Merger) affects(dec cascadia.CssDeclaration, affectedProp string) bool
 	return slices.Contains(r.longhands(dec.Property, prop), affectedProp)
 }
 
-var importantRegex = regexp.MustCompile(`(?i)!\s*important\s*$`)     // matches !important in a css declaration value
-var customVarRegex = regexp.MustCompile(`(?i)var\(\s*(--[^\s,()]+)`) // matches custom variables in a css declaration value
+var importantRegex = regexp.MustCompile(`(?i)!\s*important\s*$`)                                  // matches !important in a css declaration value
+var customVarRegex = regexp.MustCompile(`(?i)var\(\s*(--(?:[^\s,()\\]|\\[0-9a-f]{1,6}\s?|\\.)+)`) // matches custom variables in a css declaration value
 
 func getCustomVarsInDec(dec cascadia.CssDeclaration) []string {
 	matches := customVarRegex.FindAllStringSubmatch(dec.Value, -1)
@@ -165,7 +165,7 @@ func getCustomVarsInDec(dec cascadia.CssDeclaration) []string {
 		if len(match) < 2 {
 			continue
 		}
-		vars = append(vars, match[1])
+		vars = append(vars, cascadia.CssUnescape([]byte(match[1])))
 	}
 	return vars
 }
-- 
2.43.0


From 998f4424aae57a41f1ef89e52be6e5ef31fc839f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:36 +0000
Subject: [PATCH 39/51] fix: names of properties that end like a condition

---
 merge.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/merge.go b/merge.go
index 7883975..8d4691f 100644
--- a/merge.go
+++ b/merge.go
@@ -7,6 +7,7 @@ import (
 	"regexp"
 	"slices"
 	"sort"
+	"strconv"
 	"strings"
 	"sync"
 
@@ -272,7 +273,8 @@ func (r *Merger) Merge(inClass string) string {
 		for _, prop := range r.getAffectedProps(rule) {
 
 			propName := prop
-			prop = prop + propMod
+			// quoted, as the name may end like a condition (e.g., --x\:hover)
+			prop = strconv.Quote(prop) + propMod
 
 			for _, dec := range rule.Declarations {
 				// other declarations of the rule say nothing about this property
@@ -280,7 +282,7 @@ func (r *Merger) Merge(inClass string) string {
 					continue
 				}
 
-				if !strings.HasPrefix(prop, "--") {
+				if !strings.HasPrefix(propName, "--") {
 					// if the property has a custom var, add it to the propsToCustomVars map
 					customVars := getCustomVarsInDec(dec)
 					// overwrite the customVars so we prioritize the last class that sets the property
@@ -294,8 +296,8 @@ func (r *Merger) Merge(inClass string) string {
 				if importantRegex.MatchString(dec.Value) {
 					importantPropsToSelectors[prop] = selKey
 					// it stays in effect after a later declaration that is not important, and so do the custom vars it uses
-					importantProp := prop + "!important"
-					if !strings.HasPrefix(prop, "--") {
+					importantProp := "!important" + prop
+					if !strings.HasPrefix(propName, "--") {
 						propsToCustomVars[importantProp] = getCustomVarsInDec(dec)
 					} else {
 						customVarNames[importantProp] = propName
@@ -305,7 +307,7 @@ func (r *Merger) Merge(inClass string) string {
 			}
 
 			// if it has a custom prop, add it to the customVars map
-			if strings.HasPrefix(prop, "--") {
+			if strings.HasPrefix(propName, "--") {
 				customVarsToSelectors[prop] = selKey
 				continue
 			}
-- 
2.43.0


From 15522b810537ffbd2316e03b9259ef8c8abcf22d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:40 +0000
Subject: [PATCH 40/51] fix: other white space than that of CSS is part of a
 name in a value

---
 internal/cascadia/rules.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/internal/cascadia/rules.go b/internal/cascadia/rules.go
index b794e54..eff20d9 100644
--- a/internal/cascadia/rules.go
+++ b/internal/cascadia/rules.go
@@ -112,11 +112,12 @@ func CssUnescape(b []byte) string {
 }
 
 func normalizeWhitespace(s string) string {
+	const space = " \t\n\f\r"
 	if strings.Contains(s, `\`) {
 		// white space may belong to an escape
-		return strings.TrimLeft(s, " \t\n\f\r")
+		return strings.TrimLeft(s, space)
 	}
-	return strings.Join(strings.Fields(s), " ")
+	return strings.Join(strings.FieldsFunc(s, func(c rune) bool { return strings.ContainsRune(space, c) }), " ")
 }
 
 func ExtractRules(r io.Reader, inline bool) ([]CssRule, error) {
-- 
2.43.0


From 3b91ff489a204c7202d1cd18c3ceafaa53d986ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:20 +0000
Subject: [PATCH 41/51] fix: white space in strings of values

---
 internal/cascadia/rules.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/cascadia/rules.go b/internal/cascadia/rules.go
index eff20d9..1e4995e 100644
--- a/internal/cascadia/rules.go
+++ b/internal/cascadia/rules.go
@@ -113,8 +113,8 @@ func CssUnescape(b []byte) string {
 
 func normalizeWhitespace(s string) string {
 	const space = " \t\n\f\r"
-	if strings.Contains(s, `\`) {
-		// white space may belong to an escape
+	if strings.ContainsAny(s, `\"'`) {
+		// white space may belong to an escape or a string
 		return strings.TrimLeft(s, space)
 	}
 	return strings.Join(strings.FieldsFunc(s, func(c rune) bool { return strings.ContainsRune(space, c) }), " ")
-- 
2.43.0


From f11c8a0cae4be18df07f6bc3ffeefc3748f94e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:06 +0000
Subject: [PATCH 42/51] fix: no references in strings and comments, and
 comments within references

---
 merge.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/merge.go b/merge.go
index 8d4691f..18318fd 100644
--- a/merge.go
+++ b/merge.go
@@ -153,17 +153,26 @@ func (r *Merger) affects(dec cascadia.CssDeclaration, affectedProp string) bool
 	return slices.Contains(r.longhands(dec.Property, prop), affectedProp)
 }
 
-var importantRegex = regexp.MustCompile(`(?i)!\s*important\s*$`)                                  // matches !important in a css declaration value
-var customVarRegex = regexp.MustCompile(`(?i)var\(\s*(--(?:[^\s,()\\]|\\[0-9a-f]{1,6}\s?|\\.)+)`) // matches custom variables in a css declaration value
+const cssSpace = `(?:\s|/\*(?s:.*?)\*/)*` // white space and comments
+
+// matches !important in a css declaration value
+var importantRegex = regexp.MustCompile(`(?i)!` + cssSpace + `important` + cssSpace + `$`)
+
+// matches custom variables in a css declaration value, and the strings and comments that may contain something like them
+var customVarRegex = regexp.MustCompile(`(?i)\\(?s:.)|"(?s:[^"\\]|\\.)*"|'(?s:[^'\\]|\\.)*'|/\*(?s:.*?)\*/|` +
+	`var\(` + cssSpace + `(--(?:[^\s,()/\\]|\\[0-9a-f]{1,6}\s?|\\.)+)`)
 
 func getCustomVarsInDec(dec cascadia.CssDeclaration) []string {
+	if !strings.Contains(dec.Value, "(") {
+		return nil
+	}
 	matches := customVarRegex.FindAllStringSubmatch(dec.Value, -1)
 	if matches == nil {
 		return nil
 	}
 	vars := make([]string, 0, len(matches))
 	for _, match := range matches {
-		if len(match) < 2 {
+		if match[1] == "" {
 			continue
 		}
 		vars = append(vars, cascadia.CssUnescape([]byte(match[1])))
-- 
2.43.0


From dfa43c4615c0f17ccef61edb3682f05f248fdb0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:11 +0000
Subject: [PATCH 43/51] fix: selectors that are nested too deep are an error
 instead of a stack overflow

---
 internal/cascadia/parser.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/internal/cascadia/parser.go b/internal/cascadia/parser.go
index e9f98f8..a013bab 100644
--- a/internal/cascadia/parser.go
+++ b/internal/cascadia/parser.go
@@ -46,8 +46,13 @@ type parser struct {
 	// if `false`, parsing a pseudo-element
 	// returns an error.
 	acceptPseudoElements bool
+
+	depth int // how many pseudo-classes the current position is in the arguments of
 }
 
+// maxDepth limits how deep pseudo-classes may be nested, as each level takes some of the stack.
+const maxDepth = 1000
+
 // parseEscape parses a backslash escape.
 func (p *parser) parseEscape() (result string, err error) {
 	if len(p.s) < p.i+2 || p.s[p.i] != '\\' {
@@ -520,10 +525,14 @@ func (p *parser) parsePseudoclassSelector() (out Sel, pseudoElement string, err
 		if !p.consumeParenthesis() {
 			return out, "", errExpectedParenthesis
 		}
+		if p.depth++; p.depth > maxDepth {
+			return out, "", errors.New("pseudo-classes are nested too deep")
+		}
 		sel, parseErr := p.parseSelectorGroup()
 		if parseErr != nil {
 			return out, "", parseErr
 		}
+		p.depth--
 		if !p.consumeClosingParenthesis() {
 			return out, "", errExpectedClosingParenthesis
 		}
-- 
2.43.0


From 98135f99c442fc4195642b4ef1c72324bb709026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:12 +0000
Subject: [PATCH 44/51] fix: the case of letters beyond ASCII matters in
 :lang()

---
 internal/cascadia/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/cascadia/parser.go b/internal/cascadia/parser.go
index a013bab..40ee956 100644
--- a/internal/cascadia/parser.go
+++ b/internal/cascadia/parser.go
@@ -643,7 +643,7 @@ func (p *parser) parsePseudoclassSelector() (out Sel, pseudoElement string, err
 		if err != nil {
 			return out, "", err
 		}
-		val = strings.ToLower(val)
+		val = toLowerASCII(val)
 		p.skipWhitespace()
 		if p.i >= len(p.s) {
 			return out, "", errors.New("unexpected EOF in pseudo selector")
-- 
2.43.0


From 4bc31afdd04bbfad98058bdb183c71885a01b4bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:33 +0000
Subject: [PATCH 45/51] fix: a byte order mark at the start of a stylesheet is
 not part of the first selector

---
 internal/cascadia/rules.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/cascadia/rules.go b/internal/cascadia/rules.go
index 1e4995e..92ed5fa 100644
--- a/internal/cascadia/rules.go
+++ b/internal/cascadia/rules.go
@@ -130,6 +130,12 @@ func ExtractRules(r io.Reader, inline bool) ([]CssRule, error) {
 		// CRLF is a single line end, e.g., after an escape
 		input = parse.NewInputBytes(bytes.ReplaceAll(content, []byte("\r\n"), []byte("\n")))
 	}
+	const byteOrderMark = "\ufeff"
+	if !inline && bytes.HasPrefix(input.Bytes(), []byte(byteOrderMark)) {
+		// it tells the encoding, and is not part of the text
+		input.Move(len(byteOrderMark))
+		input.Skip()
+	}
 	p := css.NewParser(input, inline)
 	rules := make([]CssRule, 0)
 	var err error
-- 
2.43.0


From 120d4df7e043f3ae84cc3bd4cf332685c9b0c71b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:26 +0000
Subject: [PATCH 46/51] fix: the order of pseudo-classes in the arguments of
 others does not matter either

---
 internal/cascadia/selector.go | 21 +++++++++++++++++++--
 merge.go                      |  2 ++
 2 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/internal/cascadia/selector.go b/internal/cascadia/selector.go
index 1096be4..660c0d2 100644
--- a/internal/cascadia/selector.go
+++ b/internal/cascadia/selector.go
@@ -449,7 +449,7 @@ func (c CompoundSelector) PseudoElementsString() string {
 	return strings.Join(strs, "")
 }
 
-// SortPseudoClasses returns the selector with the pseudo-classes of each compound selector in a fixed order.
+// SortPseudoClasses returns the selector with the pseudo-classes of each compound selector, also in arguments, in a fixed order.
 // Their order does not mean anything.
 func SortPseudoClasses(sel Sel) Sel {
 	switch t := sel.(type) {
@@ -459,8 +459,17 @@ func SortPseudoClasses(sel Sel) Sel {
 			t.second = SortPseudoClasses(t.second)
 		}
 		return t
+	case IsPseudoClassSelector:
+		t.match = sortPseudoClassesOfAll(t.match)
+		return t
+	case WherePseudoClassSelector:
+		t.match = sortPseudoClassesOfAll(t.match)
+		return t
+	case RelativePseudoClassSelector:
+		t.match = sortPseudoClassesOfAll(t.match)
+		return t
 	case CompoundSelector:
-		t.selectors = slices.Clone(t.selectors)
+		t.selectors = sortPseudoClassesOfAll(t.selectors)
 		slices.SortStableFunc(t.selectors, func(a, b Sel) int {
 			switch aPseudo, bPseudo := IsPseudoElement(a), IsPseudoElement(b); {
 			case aPseudo && bPseudo:
@@ -477,6 +486,14 @@ func SortPseudoClasses(sel Sel) Sel {
 	return sel
 }
 
+func sortPseudoClassesOfAll(sels []Sel) []Sel {
+	sorted := make([]Sel, len(sels))
+	for i, sel := range sels {
+		sorted[i] = SortPseudoClasses(sel)
+	}
+	return sorted
+}
+
 // RemoveClass returns the selector with an empty name in place of the class, where the class is part of
 // the selector itself or of the arguments of :is() or :where(). Only the first occurrence is replaced.
 func RemoveClass(class string, sel Sel) Sel {
diff --git a/merge.go b/merge.go
index 18318fd..c52dad9 100644
--- a/merge.go
+++ b/merge.go
@@ -217,6 +217,8 @@ func isClass(sel cascadia.Sel) bool {
 // it can be the selector with the class name removed
 func propModifier(class string, rule cascadia.CssRule) string {
 	if isClass(rule.Selector) || classWithPseudo(rule.Selector) {
+		// the order of pseudo-classes in arguments does not mean anything either
+		rule.Selector = cascadia.SortPseudoClasses(rule.Selector)
 		// if the rule has a condition (:hover, :focus, etc.), add the condition to the property name
 		return rule.GetCondition()
 	} else {
-- 
2.43.0


From ad3bbe1c23f9a8fc81897b52928ac5f1c8f9d821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:52 +0000
Subject: [PATCH 47/51] fix: a comment in a selector is not whitespace

---
 internal/cascadia/parser.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/internal/cascadia/parser.go b/internal/cascadia/parser.go
index 40ee956..9acd7fd 100644
--- a/internal/cascadia/parser.go
+++ b/internal/cascadia/parser.go
@@ -318,6 +318,17 @@ func (p *parser) skipWhitespace() bool {
 	return false
 }
 
+// skipComments consumes comments, which, unlike whitespace, do not separate compound selectors.
+func (p *parser) skipComments() {
+	for strings.HasPrefix(p.s[p.i:], "/*") {
+		end := strings.Index(p.s[p.i+len("/*"):], "*/")
+		if end == -1 {
+			return
+		}
+		p.i += end + len("/**/")
+	}
+}
+
 // consumeParenthesis consumes an opening parenthesis and any following
 // whitespace. It returns true if there was actually a parenthesis to skip.
 func (p *parser) consumeParenthesis() bool {
@@ -849,7 +860,7 @@ func (p *parser) parseSimpleSelectorSequence() (Sel, error) {
 
 	var pseudoElement string
 loop:
-	for p.i < len(p.s) {
+	for p.skipComments(); p.i < len(p.s); p.skipComments() {
 		var (
 			ns               Sel
 			newPseudoElement string
-- 
2.43.0


From 98a71054092dd0e43b2301269f2e67ca90d8cae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:57 +0000
Subject: [PATCH 48/51] fix: white space and comments within a selector were
 dropped where they separate names

---
 internal/cascadia/rules.go | 33 +++++++++++++++++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/internal/cascadia/rules.go b/internal/cascadia/rules.go
index 92ed5fa..8761e55 100644
--- a/internal/cascadia/rules.go
+++ b/internal/cascadia/rules.go
@@ -69,6 +69,7 @@ type CssDeclaration struct {
 
 // getSelector parses the selector from the tokens
 func getSelector(data []byte, tokens []css.Token) (Sel, error) {
+	tokens = separate(tokens)
 	fullSelector := strings.Builder{}
 	for _, val := range tokens {
 		fullSelector.Write(val.Data)
@@ -77,6 +78,38 @@ func getSelector(data []byte, tokens []css.Token) (Sel, error) {
 	return casc, err
 }
 
+// separate puts a comment between tokens that would be a single one without it,
+// as the white space within brackets and the comments of the stylesheet are not among the tokens.
+func separate(tokens []css.Token) []css.Token {
+	separated := make([]css.Token, 0, len(tokens))
+	for i, token := range tokens {
+		if i > 0 && joins(tokens[i-1], token) {
+			separated = append(separated, css.Token{TokenType: css.CommentToken, Data: []byte("/**/")})
+		}
+		separated = append(separated, token)
+	}
+	return separated
+}
+
+// joins reports whether two tokens would be a single one if nothing was between them.
+func joins(first, second css.Token) bool {
+	switch first.TokenType {
+	case css.IdentToken, css.HashToken, css.AtKeywordToken, css.NumberToken, css.DimensionToken:
+		switch second.TokenType {
+		case css.IdentToken, css.FunctionToken, css.NumberToken, css.DimensionToken, css.PercentageToken, css.URLToken, css.CustomPropertyNameToken:
+			return !strings.ContainsAny(string(second.Data[:1]), "+.")
+		}
+	case css.DelimToken:
+		switch string(first.Data) {
+		case "#", "@", "-":
+			return second.TokenType == css.IdentToken || second.TokenType == css.FunctionToken
+		case "~", "|", "^", "$", "*":
+			return string(second.Data) == "="
+		}
+	}
+	return false
+}
+
 // parses the name of an at-rule and its values if it's a media query
 // @media (min-width: 600px) { /* styles */ } => "media", "(min-width: 600px)"
 func parseAtRuleName(data []byte, values []css.Token) (string, string) {
-- 
2.43.0


From 5dc4e5ebff5d9cce3b05bf438c1d4b9385272d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:46 +0000
Subject: [PATCH 49/51] fix: white space and comments in conditions made a
 difference

---
 internal/cascadia/rules.go | 63 +++++++++++++++++++++++++++++++++++++-
 1 file changed, 62 insertions(+), 1 deletion(-)

diff --git a/internal/cascadia/rules.go b/internal/cascadia/rules.go
index 8761e55..3b7b477 100644
--- a/internal/cascadia/rules.go
+++ b/internal/cascadia/rules.go
@@ -116,17 +116,78 @@ func parseAtRuleName(data []byte, values []css.Token) (string, string) {
 	if string(data) != "@media" && string(data) != "@supports" {
 		return "", ""
 	}
+	values = normalizeCondition(values)
 	ruleBuilder := strings.Builder{}
 	for _, val := range values {
 		ruleBuilder.Write(val.Data)
 	}
 	if string(data) == "@supports" {
 		// the same text may be the condition of a @media
-		return string(data), "@supports" + ruleBuilder.String()
+		return string(data), "@supports " + ruleBuilder.String()
 	}
 	return string(data), ruleBuilder.String()
 }
 
+// normalizeCondition leaves white space only where it means something, and puts it where a comment separates tokens,
+// as conditions are compared as texts.
+func normalizeCondition(tokens []css.Token) []css.Token {
+	normalized := make([]css.Token, 0, len(tokens))
+	space := false
+	level := 0 // of parentheses within selector(), where white space is a combinator
+	for _, token := range separate(tokens) {
+		if level == 0 && (token.TokenType == css.WhitespaceToken || token.TokenType == css.CommentToken) {
+			space = true
+			continue
+		}
+		if n := len(normalized); n > 0 && level == 0 && needsSpace(normalized[n-1], token, space) {
+			normalized = append(normalized, css.Token{TokenType: css.WhitespaceToken, Data: []byte(" ")})
+		}
+		space = false
+		switch token.TokenType {
+		case css.FunctionToken:
+			if level > 0 || strings.EqualFold(string(token.Data), "selector(") {
+				level++
+			}
+		case css.LeftParenthesisToken:
+			if level > 0 {
+				level++
+			}
+		case css.RightParenthesisToken:
+			if level > 0 {
+				level--
+			}
+		}
+		normalized = append(normalized, token)
+	}
+	return normalized
+}
+
+// needsSpace reports whether a normalized condition has white space between two tokens.
+func needsSpace(first, second css.Token, space bool) bool {
+	operator := func(token css.Token, operators string) bool {
+		return token.TokenType == css.DelimToken && strings.Contains(operators, string(token.Data))
+	}
+	switch {
+	case operator(first, "<>=") && operator(second, "<>="):
+		return space
+	case operator(first, "<>=/*!") || operator(second, "<>=/*!"):
+		return false
+	}
+	switch first.TokenType {
+	case css.FunctionToken, css.LeftParenthesisToken, css.CommaToken, css.ColonToken:
+		return false
+	}
+	switch second.TokenType {
+	case css.RightParenthesisToken, css.CommaToken, css.ColonToken:
+		return false
+	case css.LeftParenthesisToken:
+		return space || first.TokenType == css.IdentToken
+	case css.IdentToken:
+		return space || first.TokenType == css.RightParenthesisToken
+	}
+	return space
+}
+
 // CssUnescape replaces the escapes in a name by what they stand for.
 func CssUnescape(b []byte) string {
 	p := &parser{s: string(b)}
-- 
2.43.0


From fb0f7e9e2d8eafca159e54cff19ce0c3fb77098a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:38 +0000
Subject: [PATCH 50/51] fix: classes may be separated by any white space of
 HTML

---
 merge.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/merge.go b/merge.go
index c52dad9..2e919cd 100644
--- a/merge.go
+++ b/merge.go
@@ -212,6 +212,11 @@ func isClass(sel cascadia.Sel) bool {
 	return false
 }
 
+// isSpace reports whether a character separates classes: the white space of HTML.
+func isSpace(c rune) bool {
+	return strings.ContainsRune(" \t\n\r\f", c)
+}
+
 // propModifier returns a string representing the circumstance in which the class applies.
 // This may be pseudo elements like hover, focus, etc. or, in the case of a combination selector,
 // it can be the selector with the class name removed
@@ -246,7 +251,7 @@ func (r *Merger) Merge(inClass string) string {
 			return val
 		}
 	}
-	split := strings.Split(strings.Trim(inClass, " \t\n\r\f"), " ")
+	split := strings.FieldsFunc(inClass, isSpace)
 	if len(split) < 2 {
 		return inClass
 	}
-- 
2.43.0


From 76efd7587ff43f34ab0cc76cda7b7b35a37365e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:06 +0000
Subject: [PATCH 51/51] fix: a list of selectors that an at-rule cuts off does
 not go on with the next rule

---
 internal/cascadia/rules.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/cascadia/rules.go b/internal/cascadia/rules.go
index 3b7b477..0f7ac10 100644
--- a/internal/cascadia/rules.go
+++ b/internal/cascadia/rules.go
@@ -259,6 +259,12 @@ func ExtractRules(r io.Reader, inline bool) ([]CssRule, error) {
 			ruleSetErr = false
 		}
 
+		switch gt {
+		case css.AtRuleGrammar, css.BeginAtRuleGrammar, css.EndAtRuleGrammar:
+			// a list of selectors that is cut off here does not go on with the next rule
+			listTokens, listSelectors = nil, nil
+		}
+
 		switch gt {
 		case css.ErrorGrammar:
 			err = p.Err()
-- 
2.43.0

