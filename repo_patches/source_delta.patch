From 5c41c3114b2cb221cb8514bb779207293208ee74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:52 +0000
Subject: [PATCH 01/47] fix: encode every element of Any, not only the first
 one

---
 spec/spec.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spec/spec.go b/spec/spec.go
index 9faae81..2ec83d7 100644
--- a/spec/spec.go
+++ b/spec/spec.go
@@ -123,7 +123,7 @@ type Any []Marshaler
 
 func (e Any) Marshal3MF(x Encoder, start *xml.StartElement) error {
 	for _, ext := range e {
-		if err := ext.Marshal3MF(x, start); err == nil {
+		if err := ext.Marshal3MF(x, start); err != nil {
 			return err
 		}
 	}
-- 
2.43.0


From c4db6c29d7f25e137982b2dda25d931f05f2c3b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:54 +0000
Subject: [PATCH 02/47] fix: keep extension attributes on elements the
 extension does not extend

Spec.NewAttrGroup may return nil, which made the decoder panic.
---
 spec/spec.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/spec/spec.go b/spec/spec.go
index 2ec83d7..6bc00b0 100644
--- a/spec/spec.go
+++ b/spec/spec.go
@@ -104,7 +104,9 @@ func (a AnyAttr) Marshal3MF(x Encoder, start *xml.StartElement) error {
 
 func NewAttrGroup(namespace string, parent xml.Name) AttrGroup {
 	if ext, ok := Load(namespace); ok {
-		return ext.NewAttrGroup(parent)
+		if group := ext.NewAttrGroup(parent); group != nil {
+			return group
+		}
 	}
 	return &UnknownAttrs{
 		Space: namespace,
-- 
2.43.0


From 99b29587721695f517558d3083eecf6764fd1431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:57 +0000
Subject: [PATCH 03/47] fix: ignore extension elements that cannot appear where
 they are found

A beamlattice directly under resources made the decoder panic.
---
 decoder.go | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/decoder.go b/decoder.go
index 7e37521..de69286 100644
--- a/decoder.go
+++ b/decoder.go
@@ -41,9 +41,11 @@ func (d *modelDecoder) Child(name xml.Name) (i int, child spec.ElementDecoder) {
 		}
 	} else {
 		dec := spec.NewElementDecoder(name)
-		child = dec
 		if dec != nil {
-			d.model.Any = append(d.model.Any, dec.Element().(spec.Marshaler))
+			if elem, ok := dec.Element().(spec.Marshaler); ok {
+				d.model.Any = append(d.model.Any, elem)
+				child = dec
+			}
 		}
 		i = -1
 	}
@@ -300,9 +302,11 @@ func (d *resourceDecoder) Child(name xml.Name) (i int, child spec.ElementDecoder
 	} else if ext, ok := spec.Load(name.Space); ok {
 		dec := ext.NewElementDecoder(name)
 		i = len(d.resources.Assets)
-		child = dec
 		if dec != nil {
-			d.resources.Assets = append(d.resources.Assets, dec.Element().(Asset))
+			if asset, ok := dec.Element().(Asset); ok {
+				d.resources.Assets = append(d.resources.Assets, asset)
+				child = dec
+			}
 		}
 	} else {
 		child = &unknownAssetDecoder{UnknownTokensDecoder: *spec.NewUnknownDecoder(name), resources: d.resources}
@@ -419,9 +423,11 @@ func (d *meshDecoder) Child(name xml.Name) (i int, child spec.ElementDecoder) {
 		}
 	} else {
 		dec := spec.NewElementDecoder(name)
-		child = dec
 		if dec != nil {
-			d.resource.Mesh.Any = append(d.resource.Mesh.Any, dec.Element().(spec.Marshaler))
+			if elem, ok := dec.Element().(spec.Marshaler); ok {
+				d.resource.Mesh.Any = append(d.resource.Mesh.Any, elem)
+				child = dec
+			}
 		}
 		i = -1
 	}
-- 
2.43.0


From 6fb7f2abcc65e8c5897d740e47034683d3c27958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:59 +0000
Subject: [PATCH 04/47] fix: keep unknown elements of a child model in that
 child

They were appended to the root model, concurrently for every child.
---
 decoder.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/decoder.go b/decoder.go
index de69286..8b3ecb2 100644
--- a/decoder.go
+++ b/decoder.go
@@ -43,7 +43,11 @@ func (d *modelDecoder) Child(name xml.Name) (i int, child spec.ElementDecoder) {
 		dec := spec.NewElementDecoder(name)
 		if dec != nil {
 			if elem, ok := dec.Element().(spec.Marshaler); ok {
-				d.model.Any = append(d.model.Any, elem)
+				if d.isRoot {
+					d.model.Any = append(d.model.Any, elem)
+				} else if c, ok := d.model.Childs[d.path]; ok {
+					c.Any = append(c.Any, elem)
+				}
 				child = dec
 			}
 		}
-- 
2.43.0


From 6a474757ba496d7d9970db758cd4b849f108f2d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:01 +0000
Subject: [PATCH 05/47] fix: decode the root resources regardless of the path
 the model already has

UnmarshalModel panicked for a model with a path other than the default.
---
 decoder.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/decoder.go b/decoder.go
index 8b3ecb2..3ae2a83 100644
--- a/decoder.go
+++ b/decoder.go
@@ -25,7 +25,10 @@ func (d *modelDecoder) Child(name xml.Name) (i int, child spec.ElementDecoder) {
 	if name.Space == Namespace {
 		switch name.Local {
 		case attrResources:
-			resources, _ := d.model.FindResources(d.path)
+			resources := &d.model.Resources
+			if !d.isRoot {
+				resources, _ = d.model.FindResources(d.path)
+			}
 			child = &resourceDecoder{resources: resources, model: d.model}
 			i = -1
 		case attrBuild:
-- 
2.43.0


From 8de4195480f8dc18b072c3845fcd4a9ce13e801a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:29 +0000
Subject: [PATCH 06/47] fix: track open elements by depth when decoding

The content of an ignored element was read as if it were in its parent, an
unknown element nested in one of the same name ended the outer one, and
a model element after or inside another one made the decoder panic.
---
 read.go | 37 +++++++++++++++++++++++++++----------
 1 file changed, 27 insertions(+), 10 deletions(-)

diff --git a/read.go b/read.go
index 9a474e0..c75c3e7 100644
--- a/read.go
+++ b/read.go
@@ -72,17 +72,22 @@ func decodeModelFile(ctx context.Context, r io.Reader, model *Model, path string
 
 	var (
 		currentDecoder spec.ElementDecoder
-		currentName    xml.Name
 		errs           specerr.List
 	)
 	currentDecoder = &topLevelDecoder{isRoot: isRoot, model: model, path: path}
-	var err error
+	topDecoder := currentDecoder
+	var (
+		err     error
+		ignored int // open elements that are ignored, the outermost has no decoder
+		nested  int // open elements inside the one handled by an AppendTokenElementDecoder
+	)
 	x.OnStart = func(tp xml3mf.StartElement) {
-		if childDecoder, ok := currentDecoder.(spec.ChildElementDecoder); ok {
+		if ignored > 0 {
+			ignored++
+		} else if childDecoder, ok := currentDecoder.(spec.ChildElementDecoder); ok {
 			i, tmpDecoder := childDecoder.Child(tp.Name)
 			if tmpDecoder != nil {
 				stack = append(stack, stackElement{tmpDecoder, tp.Name, i})
-				currentName = tp.Name
 				currentDecoder = tmpDecoder
 				err := currentDecoder.Start(*(*[]spec.XMLAttr)(unsafe.Pointer(&tp.Attr)))
 				if err != nil {
@@ -92,6 +97,8 @@ func decodeModelFile(ctx context.Context, r io.Reader, model *Model, path string
 					}
 					specerr.Append(&errs, err)
 				}
+			} else {
+				ignored++
 			}
 		} else if appendDecoder, ok := currentDecoder.(spec.AppendTokenElementDecoder); ok {
 			var xattrs []xml.Attr
@@ -105,22 +112,32 @@ func decodeModelFile(ctx context.Context, r io.Reader, model *Model, path string
 				Name: tp.Name,
 				Attr: xattrs,
 			})
+			nested++
+		} else {
+			ignored++
 		}
 	}
 	x.OnEnd = func(tp xml.EndElement) {
-		if currentName == tp.Name {
+		if ignored > 0 {
+			ignored--
+		} else if nested > 0 {
+			nested--
+			if appendDecoder, ok := currentDecoder.(spec.AppendTokenElementDecoder); ok {
+				appendDecoder.AppendToken(tp)
+			}
+		} else if len(stack) > 0 {
 			currentDecoder.End()
 			stack = stack[:len(stack)-1]
+			currentDecoder = topDecoder
 			if len(stack) > 0 {
-				element := stack[len(stack)-1]
-				currentDecoder = element.decoder
-				currentName = element.name
+				currentDecoder = stack[len(stack)-1].decoder
 			}
-		} else if appendDecoder, ok := currentDecoder.(spec.AppendTokenElementDecoder); ok {
-			appendDecoder.AppendToken(tp)
 		}
 	}
 	x.OnChar = func(tp xml.CharData) {
+		if ignored > 0 {
+			return
+		}
 		if currentDecoder, ok := currentDecoder.(spec.CharDataElementDecoder); ok {
 			currentDecoder.CharData(tp)
 		} else if appendDecoder, ok := currentDecoder.(spec.AppendTokenElementDecoder); ok {
-- 
2.43.0


From f28cd3ac2ab947973cd3d896e431481c0f3ef1e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:31 +0000
Subject: [PATCH 07/47] fix: copy the text of unknown elements

The decoder reuses its buffer, so the kept text was overwritten.
---
 read.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/read.go b/read.go
index c75c3e7..f42371f 100644
--- a/read.go
+++ b/read.go
@@ -141,7 +141,7 @@ func decodeModelFile(ctx context.Context, r io.Reader, model *Model, path string
 		if currentDecoder, ok := currentDecoder.(spec.CharDataElementDecoder); ok {
 			currentDecoder.CharData(tp)
 		} else if appendDecoder, ok := currentDecoder.(spec.AppendTokenElementDecoder); ok {
-			appendDecoder.AppendToken(tp)
+			appendDecoder.AppendToken(tp.Copy()) // tp is only valid until the next token
 		}
 	}
 	var i int
-- 
2.43.0


From 7ee2f1fe5669ba2a71c3431d4b2cbcf529e6c327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:34 +0000
Subject: [PATCH 08/47] fix: keep the whole text of a metadata split by a
 processing instruction

---
 decoder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decoder.go b/decoder.go
index 3ae2a83..fc9f34a 100644
--- a/decoder.go
+++ b/decoder.go
@@ -187,7 +187,7 @@ func (d *metadataDecoder) Start(attrs []spec.XMLAttr) error {
 }
 
 func (d *metadataDecoder) CharData(txt []byte) {
-	d.metadata.Value = string(txt)
+	d.metadata.Value += string(txt) // text can come in several pieces
 }
 
 func (d *metadataDecoder) End() {
-- 
2.43.0


From a8172b6689f4c81a8b13284c5c3820848a5954f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:27 +0000
Subject: [PATCH 09/47] fix: report attachments that cannot be read when
 decoding

---
 read.go | 45 +++++++++++++++++++++++++++++----------------
 1 file changed, 29 insertions(+), 16 deletions(-)

diff --git a/read.go b/read.go
index f42371f..ed0fc8e 100644
--- a/read.go
+++ b/read.go
@@ -267,13 +267,19 @@ func (d *Decoder) processOPC(model *Model) (packageFile, error) {
 				return nil, errors.New("package root model points to an unexisting file")
 			}
 			model.Path = rootFile.Name()
-			d.extractCoreAttachments(rootFile, model, true)
+			if err := d.extractCoreAttachments(rootFile, model, true); err != nil {
+				return nil, err
+			}
 			for _, file := range d.nonRootModels {
-				d.extractCoreAttachments(file, model, false)
+				if err := d.extractCoreAttachments(file, model, false); err != nil {
+					return nil, err
+				}
 			}
 		} else if att, ok := d.p.FindFileFromName(r.Path); ok {
 			model.RootRelationships = append(model.RootRelationships, r)
-			model.Attachments = d.addAttachment(model.Attachments, att)
+			if err := d.addAttachment(model, att); err != nil {
+				return nil, err
+			}
 		}
 	}
 	if rootFile == nil {
@@ -282,7 +288,7 @@ func (d *Decoder) processOPC(model *Model) (packageFile, error) {
 	return rootFile, nil
 }
 
-func (d *Decoder) extractCoreAttachments(modelFile packageFile, model *Model, isRoot bool) {
+func (d *Decoder) extractCoreAttachments(modelFile packageFile, model *Model, isRoot bool) error {
 	for _, rel := range modelFile.Relationships() {
 		if file, ok := modelFile.FindFileFromName(rel.Path); ok {
 			if isRoot {
@@ -293,33 +299,40 @@ func (d *Decoder) extractCoreAttachments(modelFile packageFile, model *Model, is
 					}
 					model.Childs[file.Name()] = new(ChildModel)
 				} else {
-					model.Attachments = d.addAttachment(model.Attachments, file)
+					if err := d.addAttachment(model, file); err != nil {
+						return err
+					}
 					model.Relationships = append(model.Relationships, rel)
 				}
 			} else if rel.Type != RelType3DModel {
 				if child, ok := model.Childs[modelFile.Name()]; ok {
-					model.Attachments = d.addAttachment(model.Attachments, file)
+					if err := d.addAttachment(model, file); err != nil {
+						return err
+					}
 					child.Relationships = append(child.Relationships, rel)
 				}
 			}
 		}
 	}
+	return nil
 }
 
-func (d *Decoder) addAttachment(attachments []Attachment, file packageFile) []Attachment {
-	for _, att := range attachments {
+func (d *Decoder) addAttachment(model *Model, file packageFile) error {
+	for _, att := range model.Attachments {
 		if strings.EqualFold(att.Path, file.Name()) {
-			return attachments
+			return nil
 		}
 	}
-	if buff, err := copyFile(file); err == nil {
-		return append(attachments, Attachment{
-			Path:        file.Name(),
-			Stream:      buff,
-			ContentType: file.ContentType(),
-		})
+	buff, err := copyFile(file)
+	if err != nil {
+		return err
 	}
-	return attachments
+	model.Attachments = append(model.Attachments, Attachment{
+		Path:        file.Name(),
+		Stream:      buff,
+		ContentType: file.ContentType(),
+	})
+	return nil
 }
 
 func (d *Decoder) readChildModel(ctx context.Context, i int, model *Model) error {
-- 
2.43.0


From b0fce7907fa3ac680e92625356f6904d4272b7db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:29 +0000
Subject: [PATCH 10/47] fix: forget the child models of a previous decode

Decoding twice with the same decoder read every child twice, concurrently.
---
 read.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/read.go b/read.go
index ed0fc8e..f8e74c6 100644
--- a/read.go
+++ b/read.go
@@ -258,6 +258,7 @@ func (d *Decoder) processOPC(model *Model) (packageFile, error) {
 	if err := d.p.Open(d.flate); err != nil {
 		return nil, err
 	}
+	d.nonRootModels = nil
 	var rootFile packageFile
 	for _, r := range d.p.Relationships() {
 		if r.Type == RelType3DModel {
-- 
2.43.0


From 1e8b14f9441907cde5bb880ae222a2a894cf081a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:31 +0000
Subject: [PATCH 11/47] fix: read a child model once even if the root is
 related to it several times

Each relationship started a concurrent decode into the same child, and a
root related to itself was also read as its own child.
---
 read.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/read.go b/read.go
index f8e74c6..9b29af1 100644
--- a/read.go
+++ b/read.go
@@ -294,6 +294,9 @@ func (d *Decoder) extractCoreAttachments(modelFile packageFile, model *Model, is
 		if file, ok := modelFile.FindFileFromName(rel.Path); ok {
 			if isRoot {
 				if rel.Type == RelType3DModel {
+					if file.Name() == modelFile.Name() || d.isNonRootModel(file.Name()) {
+						continue // related to itself, or more than once
+					}
 					d.nonRootModels = append(d.nonRootModels, file)
 					if model.Childs == nil {
 						model.Childs = make(map[string]*ChildModel)
@@ -318,6 +321,15 @@ func (d *Decoder) extractCoreAttachments(modelFile packageFile, model *Model, is
 	return nil
 }
 
+func (d *Decoder) isNonRootModel(name string) bool {
+	for _, file := range d.nonRootModels {
+		if file.Name() == name {
+			return true
+		}
+	}
+	return false
+}
+
 func (d *Decoder) addAttachment(model *Model, file packageFile) error {
 	for _, att := range model.Attachments {
 		if strings.EqualFold(att.Path, file.Name()) {
-- 
2.43.0


From 5044a3227b04f27b8d3830415bd41ec1b958cc7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:54 +0000
Subject: [PATCH 12/47] fix: report the error of the child model that really
 failed

The errors of the children raced with each other, and the error of a child
that failed was replaced by the cancellation of the others. In non-strict
mode an invalid attribute in a child cancelled the rest of the decode.
---
 read.go | 53 ++++++++++++++++++++++++++++++++++++-----------------
 1 file changed, 36 insertions(+), 17 deletions(-)

diff --git a/read.go b/read.go
index 9b29af1..d177bec 100644
--- a/read.go
+++ b/read.go
@@ -202,10 +202,25 @@ func (d *Decoder) DecodeContext(ctx context.Context, model *Model) error {
 	if err != nil {
 		return err
 	}
-	if err := d.processNonRootModels(ctx, model); err != nil {
+	childErr := d.processNonRootModels(ctx, model)
+	if childErr != nil && (d.Strict || !isContentError(childErr)) {
+		return childErr
+	}
+	err = d.processRootModel(ctx, rootFile, model)
+	if childErr == nil || (err != nil && !isContentError(err)) {
 		return err
 	}
-	return d.processRootModel(ctx, rootFile, model)
+	return specerr.Append(childErr, err)
+}
+
+// isContentError returns true if err reports invalid values in a model file
+// that could be read until its end.
+func isContentError(err error) bool {
+	switch err.(type) {
+	case *specerr.Error, *specerr.List:
+		return true
+	}
+	return false
 }
 
 // UnmarshalModel fills a model with the data of a root model file
@@ -229,29 +244,39 @@ func (d *Decoder) processRootModel(ctx context.Context, rootFile packageFile, mo
 	return nil
 }
 
-func (d *Decoder) processNonRootModels(ctx context.Context, model *Model) (errs error) {
+func (d *Decoder) processNonRootModels(parent context.Context, model *Model) error {
 	var (
 		wg                 sync.WaitGroup
+		once               sync.Once
+		firstErr           error // the one that cancels the other decodes
 		nonRootModelsCount = len(d.nonRootModels)
+		contentErrs        = make([]error, nonRootModelsCount)
 	)
 	wg.Add(nonRootModelsCount)
-	ctx, cancel := context.WithCancel(ctx)
+	ctx, cancel := context.WithCancel(parent)
 	defer cancel()
 	for i := 0; i < nonRootModelsCount; i++ {
 		go func(i int) {
 			defer wg.Done()
 			err := d.readChildModel(ctx, i, model)
-			if err != nil {
-				errs = err
-				cancel()
+			if !d.Strict && isContentError(err) {
+				contentErrs[i] = err
+			} else if err != nil {
+				once.Do(func() {
+					firstErr = err
+					cancel()
+				})
 			}
 		}(i)
 	}
 	wg.Wait()
-	if errs != nil {
-		return errs
+	if err := parent.Err(); err != nil {
+		return err
 	}
-	return nil
+	if firstErr != nil {
+		return firstErr
+	}
+	return specerr.Append(nil, contentErrs...)
 }
 
 func (d *Decoder) processOPC(model *Model) (packageFile, error) {
@@ -355,13 +380,7 @@ func (d *Decoder) readChildModel(ctx context.Context, i int, model *Model) error
 		return err
 	}
 	defer file.Close()
-	err = decodeModelFile(ctx, file, model, attachment.Name(), false, d.Strict)
-	select {
-	case <-ctx.Done():
-		err = ctx.Err()
-	default: // Default is must to avoid blocking
-	}
-	return err
+	return decodeModelFile(ctx, file, model, attachment.Name(), false, d.Strict)
 }
 
 func copyFile(file packageFile) (io.Reader, error) {
-- 
2.43.0


From 500d525d1ece2a6441fc6a4ad80d6b901d20d275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:47 +0000
Subject: [PATCH 13/47] fix: resolve metadata prefixes with the declarations of
 the child model

They were looked up in the root model, which is read later.
---
 decoder.go | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/decoder.go b/decoder.go
index fc9f34a..4f8f63b 100644
--- a/decoder.go
+++ b/decoder.go
@@ -19,6 +19,17 @@ type modelDecoder struct {
 	model  *Model
 	isRoot bool
 	path   string
+	// exts are the namespaces declared by a non-root model.
+	exts []Extension
+}
+
+// namespaces returns the model whose extensions resolve
+// the prefixes used in the values of this file.
+func (d *modelDecoder) namespaces() *Model {
+	if d.isRoot {
+		return d.model
+	}
+	return &Model{Extensions: d.exts}
 }
 
 func (d *modelDecoder) Child(name xml.Name) (i int, child spec.ElementDecoder) {
@@ -29,7 +40,7 @@ func (d *modelDecoder) Child(name xml.Name) (i int, child spec.ElementDecoder) {
 			if !d.isRoot {
 				resources, _ = d.model.FindResources(d.path)
 			}
-			child = &resourceDecoder{resources: resources, model: d.model}
+			child = &resourceDecoder{resources: resources, model: d.namespaces()}
 			i = -1
 		case attrBuild:
 			if d.isRoot {
@@ -61,6 +72,11 @@ func (d *modelDecoder) Child(name xml.Name) (i int, child spec.ElementDecoder) {
 
 func (d *modelDecoder) Start(attrs []spec.XMLAttr) (err error) {
 	if !d.isRoot {
+		for _, a := range attrs {
+			if a.Name.Space == attrXmlns {
+				d.exts = append(d.exts, Extension{Namespace: string(a.Value), LocalName: a.Name.Local})
+			}
+		}
 		return
 	}
 	var requiredExts []string
-- 
2.43.0


From c70dc08cf7244a2e2afef7da606368610ccf6c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:48 +0000
Subject: [PATCH 14/47] fix: keep the position of a color without value

It was dropped, which shifted the index of the following colors.
---
 materials/decoder.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/materials/decoder.go b/materials/decoder.go
index b038fb9..4a6ab5a 100644
--- a/materials/decoder.go
+++ b/materials/decoder.go
@@ -5,6 +5,7 @@ package materials
 
 import (
 	"encoding/xml"
+	"image/color"
 	"strconv"
 	"strings"
 
@@ -73,21 +74,20 @@ type colorDecoder struct {
 	resource *ColorGroup
 }
 
-func (d *colorDecoder) Start(attrs []spec.XMLAttr) error {
+func (d *colorDecoder) Start(attrs []spec.XMLAttr) (errs error) {
+	var c color.RGBA
 	for _, a := range attrs {
 		if a.Name.Space == "" && a.Name.Local == attrColor {
-			c, err := spec.ParseRGBA(string(a.Value))
+			var err error
+			c, err = spec.ParseRGBA(string(a.Value))
 			if err != nil {
-				err = specerr.NewParseAttrError(a.Name.Local, true)
-			}
-			d.resource.Colors = append(d.resource.Colors, c)
-			if err != nil {
-				return err
+				errs = specerr.NewParseAttrError(a.Name.Local, true)
 			}
 			break
 		}
 	}
-	return nil
+	d.resource.Colors = append(d.resource.Colors, c)
+	return
 }
 
 type tex2DCoordDecoder struct {
-- 
2.43.0


From f8ea8a444c553982d6ca843b93265a6544c80aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:49 +0000
Subject: [PATCH 15/47] fix: ignore attributes of other namespaces in slice
 elements

---
 slices/decoder.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/slices/decoder.go b/slices/decoder.go
index 4dd286a..a0356f6 100644
--- a/slices/decoder.go
+++ b/slices/decoder.go
@@ -72,6 +72,9 @@ func (d *sliceStackDecoder) Child(name xml.Name) (i int, child spec.ElementDecod
 func (d *sliceStackDecoder) Start(attrs []spec.XMLAttr) error {
 	var errs error
 	for _, a := range attrs {
+		if a.Name.Space != "" {
+			continue
+		}
 		switch a.Name.Local {
 		case attrID:
 			id, err := strconv.ParseUint(string(a.Value), 10, 32)
@@ -102,6 +105,9 @@ func (d *sliceRefDecoder) Start(attrs []spec.XMLAttr) error {
 		errs         error
 	)
 	for _, a := range attrs {
+		if a.Name.Space != "" {
+			continue
+		}
 		switch a.Name.Local {
 		case attrSliceRefID:
 			val, err := strconv.ParseUint(string(a.Value), 10, 32)
@@ -148,6 +154,9 @@ func (d *sliceDecoder) Start(attrs []spec.XMLAttr) error {
 	d.polygonVerticesDecoder.slice = &d.slice
 	var errs error
 	for _, a := range attrs {
+		if a.Name.Space != "" {
+			continue
+		}
 		if a.Name.Local == attrZTop {
 			val, err := strconv.ParseFloat(string(a.Value), 32)
 			if err != nil {
@@ -190,6 +199,9 @@ func (d *polygonVertexDecoder) Start(attrs []spec.XMLAttr) error {
 		errs error
 	)
 	for _, a := range attrs {
+		if a.Name.Space != "" {
+			continue
+		}
 		val, err := strconv.ParseFloat(string(a.Value), 32)
 		if err != nil {
 			errs = specerr.Append(errs, specerr.NewParseAttrError(a.Name.Local, true))
@@ -225,6 +237,9 @@ func (d *polygonDecoder) Start(attrs []spec.XMLAttr) error {
 	d.slice.Polygons = append(d.slice.Polygons, Polygon{})
 	d.polygonSegmentDecoder.polygon = &d.slice.Polygons[polygonIndex]
 	for _, a := range attrs {
+		if a.Name.Space != "" {
+			continue
+		}
 		if a.Name.Local == attrStartV {
 			val, err := strconv.ParseUint(string(a.Value), 10, 32)
 			if err != nil {
@@ -249,6 +264,9 @@ func (d *polygonSegmentDecoder) Start(attrs []spec.XMLAttr) error {
 		errs         error
 	)
 	for _, a := range attrs {
+		if a.Name.Space != "" {
+			continue
+		}
 		var required bool
 		val, err := strconv.ParseUint(string(a.Value), 10, 32)
 		switch a.Name.Local {
-- 
2.43.0


From 236ae5e5ec1eb4a522f802f5d798f12808acb71b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:50 +0000
Subject: [PATCH 16/47] fix: locate segment errors by the position of the
 segment

---
 slices/decoder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/slices/decoder.go b/slices/decoder.go
index a0356f6..3c16ad0 100644
--- a/slices/decoder.go
+++ b/slices/decoder.go
@@ -226,7 +226,7 @@ type polygonDecoder struct {
 func (d *polygonDecoder) Child(name xml.Name) (i int, child spec.ElementDecoder) {
 	if name.Space == Namespace && name.Local == attrSegment {
 		child = &d.polygonSegmentDecoder
-		i = len(d.slice.Polygons)
+		i = len(d.polygonSegmentDecoder.polygon.Segments)
 	}
 	return
 }
-- 
2.43.0


From e972d27fd5263ff209d7970c81fbf2c451a4f1f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:52 +0000
Subject: [PATCH 17/47] fix: encode triangles with extension attributes

The attributes overwrote the property attributes of the following
triangles and their values were not escaped.
---
 encoder.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/encoder.go b/encoder.go
index 39c84f7..67de7c5 100644
--- a/encoder.go
+++ b/encoder.go
@@ -485,7 +485,7 @@ func (e *Encoder) writeTriangles(x spec.Encoder, r *Object, m *Mesh) {
 		attrs[0].Value = strconv.FormatUint(uint64(t.V1), 10)
 		attrs[1].Value = strconv.FormatUint(uint64(t.V2), 10)
 		attrs[2].Value = strconv.FormatUint(uint64(t.V3), 10)
-		start.Attr = attrs[:3]
+		start.Attr = attrs[:3:3]
 		if t.PID != 0 {
 			if (t.P1 != t.P2) || (t.P1 != t.P3) {
 				attrs[3].Value = strconv.FormatUint(uint64(t.PID), 10)
@@ -496,10 +496,11 @@ func (e *Encoder) writeTriangles(x spec.Encoder, r *Object, m *Mesh) {
 			} else if (t.PID != r.PID) || (t.P1 != r.PIndex) {
 				attrs[3].Value = strconv.FormatUint(uint64(t.PID), 10)
 				attrs[4].Value = strconv.FormatUint(uint64(t.P1), 10)
-				start.Attr = attrs[:5]
+				start.Attr = attrs[:5:5]
 			}
 		}
 		t.AnyAttr.Marshal3MF(x, &start)
+		x.SetSkipAttrEscape(len(t.AnyAttr) == 0)
 		x.EncodeToken(start)
 	}
 	x.SetSkipAttrEscape(false)
-- 
2.43.0


From d88400a9ed19e74ec39f4bcdfd298f3b51e8af42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:53 +0000
Subject: [PATCH 18/47] fix: encode the second radius of a beam when only the
 first differs from the default

When it is missing it is taken from the first radius, not from the lattice.
---
 beamlattice/encoder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beamlattice/encoder.go b/beamlattice/encoder.go
index 67ebf58..d9d1b6f 100644
--- a/beamlattice/encoder.go
+++ b/beamlattice/encoder.go
@@ -83,7 +83,7 @@ func marshalBeams(x spec.Encoder, m *BeamLattice) {
 				Value: strconv.FormatFloat(float64(b.Radius[0]), 'f', x.FloatPresicion(), 32),
 			})
 		}
-		if b.Radius[1] > 0 && b.Radius[1] != m.Radius {
+		if b.Radius[1] > 0 && (b.Radius[1] != m.Radius || b.Radius[0] != m.Radius) {
 			xbeam.Attr = append(xbeam.Attr, xml.Attr{
 				Name:  xml.Name{Local: attrR2},
 				Value: strconv.FormatFloat(float64(b.Radius[1]), 'f', x.FloatPresicion(), 32),
-- 
2.43.0


From 3395e1e9773d444695a82da559936e71378ae891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:53 +0000
Subject: [PATCH 19/47] fix: validate beam set references against the beams of
 the lattice

---
 beamlattice/validate.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beamlattice/validate.go b/beamlattice/validate.go
index 887dc16..8d94ca5 100644
--- a/beamlattice/validate.go
+++ b/beamlattice/validate.go
@@ -61,7 +61,7 @@ func validateObject(m *go3mf.Model, path string, obj *go3mf.Object) error {
 	}
 	for i, set := range bl.BeamSets.BeamSet {
 		for _, ref := range set.Refs {
-			if int(ref) >= len(set.Refs) {
+			if int(ref) >= len(bl.Beams.Beam) {
 				errs = errors.Append(errs, errors.WrapIndex(errors.ErrIndexOutOfBounds, attrBeamSet, i))
 				break
 			}
-- 
2.43.0


From 7d696b006c4c09a1818f8c0aca0fb5ccdd0a64a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:54 +0000
Subject: [PATCH 20/47] fix: validate the indices of composites and
 multiproperties against the size of the groups

The index equal to the size was accepted, and texture groups were taken as empty.
---
 materials/validate.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/materials/validate.go b/materials/validate.go
index a3e8eed..0351dbc 100644
--- a/materials/validate.go
+++ b/materials/validate.go
@@ -9,6 +9,7 @@ import (
 
 	"github.com/hpinc/go3mf"
 	"github.com/hpinc/go3mf/errors"
+	"github.com/hpinc/go3mf/spec"
 )
 
 func (Spec) Validate(model interface{}, path string, asset interface{}) error {
@@ -111,18 +112,20 @@ func validateMultiProps(m *go3mf.Model, path string, r *MultiProperties) (errs e
 		lengths           = make([]int, len(r.PIDs))
 	)
 	for j, pid := range r.PIDs {
+		lengths[j] = -1 // not an indexed group
 		if pr, ok := m.FindAsset(path, pid); ok {
-			switch pr := pr.(type) {
+			if group, ok := pr.(spec.PropertyGroup); ok {
+				lengths[j] = group.Len()
+			}
+			switch pr.(type) {
 			case *go3mf.BaseMaterials:
 				if j != 0 {
 					errs = errors.Append(errs, ErrMaterialMulti)
 				}
-				lengths[j] = len(pr.Materials)
 			case *CompositeMaterials:
 				if j != 0 {
 					errs = errors.Append(errs, ErrMaterialMulti)
 				}
-				lengths[j] = len(pr.Composites)
 			case *MultiProperties:
 				errs = errors.Append(errs, ErrMultiRefMulti)
 			case *ColorGroup:
@@ -130,7 +133,6 @@ func validateMultiProps(m *go3mf.Model, path string, r *MultiProperties) (errs e
 					errs = errors.Append(errs, ErrMultiColors)
 				}
 				colorCount++
-				lengths[j] = len(pr.Colors)
 			}
 		} else if !resourceUndefined {
 			resourceUndefined = true
@@ -139,7 +141,7 @@ func validateMultiProps(m *go3mf.Model, path string, r *MultiProperties) (errs e
 	}
 	for j, multi := range r.Multis {
 		for k, index := range multi.PIndices {
-			if k < len(r.PIDs) && lengths[k] < int(index) {
+			if k < len(r.PIDs) && lengths[k] >= 0 && int(index) >= lengths[k] {
 				errs = errors.Append(errs, errors.WrapIndex(errors.ErrIndexOutOfBounds, attrMulti, j))
 				break
 			}
@@ -157,7 +159,7 @@ func validateCompositeMat(m *go3mf.Model, path string, r *CompositeMaterials) (e
 	} else if mat, ok := m.FindAsset(path, r.MaterialID); ok {
 		if bm, ok := mat.(*go3mf.BaseMaterials); ok {
 			for _, index := range r.Indices {
-				if int(index) > len(bm.Materials) {
+				if int(index) >= len(bm.Materials) {
 					errs = errors.Append(errs, errors.ErrIndexOutOfBounds)
 					break
 				}
-- 
2.43.0


From ec8481e8e602febf88befd7b14645ced6caf169a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:27 +0000
Subject: [PATCH 21/47] fix: transform the eight corners of a box

Two opposite corners are not enough when the transform rotates the box.
---
 math.go | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/math.go b/math.go
index 4612e0b..8044ad5 100644
--- a/math.go
+++ b/math.go
@@ -178,18 +178,13 @@ func (m1 Matrix) MulBox(b Box) Box {
 	if m1[15] == 0 {
 		return b
 	}
-	box := Box{
-		Min: m1.Mul3D(b.Min),
-		Max: m1.Mul3D(b.Max),
-	}
-	if box.Min.X() > box.Max.X() {
-		box.Min[0], box.Max[0] = box.Max[0], box.Min[0]
-	}
-	if box.Min.Y() > box.Max.Y() {
-		box.Min[1], box.Max[1] = box.Max[1], box.Min[1]
-	}
-	if box.Min.Z() > box.Max.Z() {
-		box.Min[2], box.Max[2] = box.Max[2], box.Min[2]
+	box := newLimitBox()
+	for _, x := range [2]float32{b.Min.X(), b.Max.X()} {
+		for _, y := range [2]float32{b.Min.Y(), b.Max.Y()} {
+			for _, z := range [2]float32{b.Min.Z(), b.Max.Z()} {
+				box = box.extendPoint(m1.Mul3D(Point3D{x, y, z}))
+			}
+		}
 	}
 	return box
 }
-- 
2.43.0


From 5d8919e8af23685a57d9f9ce5f25f4e647649973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:29 +0000
Subject: [PATCH 22/47] fix: return an unused id when ids are repeated or zero

---
 core.go | 24 +++++++++---------------
 1 file changed, 9 insertions(+), 15 deletions(-)

diff --git a/core.go b/core.go
index 0d2d16a..fbb756b 100644
--- a/core.go
+++ b/core.go
@@ -140,26 +140,20 @@ func (rs *Resources) UnusedID() uint32 {
 	if len(rs.Assets) == 0 && len(rs.Objects) == 0 {
 		return 1
 	}
-	ids := make([]int, len(rs.Assets)+len(rs.Objects)+1)
-	ids[0] = 0
-	for i, r := range rs.Assets {
-		id := r.Identify()
-		ids[i+1] = int(id)
+	ids := make([]int, 0, len(rs.Assets)+len(rs.Objects))
+	for _, r := range rs.Assets {
+		ids = append(ids, int(r.Identify()))
 	}
-	for i, o := range rs.Objects {
-		ids[len(rs.Assets)+i+1] = int(o.ID)
+	for _, o := range rs.Objects {
+		ids = append(ids, int(o.ID))
 	}
 	sort.Ints(ids)
-	lowest := 0
-	for i, id := range ids {
-		if id != i {
-			lowest = i
-			break
+	lowest := 1
+	for _, id := range ids {
+		if id == lowest {
+			lowest++
 		}
 	}
-	if lowest == 0 {
-		lowest = ids[len(ids)-1] + 1
-	}
 	return uint32(lowest)
 }
 
-- 
2.43.0


From c9adc2b7de2d2198cb1485c815a873b1a3e2effe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:31 +0000
Subject: [PATCH 23/47] fix: do not merge vertices whose coordinates overflow
 an int32 of microns

---
 math.go | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/math.go b/math.go
index 8044ad5..ac47bbe 100644
--- a/math.go
+++ b/math.go
@@ -35,24 +35,34 @@ func newPairEntry(data1, data2 uint32) pairEntry {
 	return pairEntry{data2, data1}
 }
 
-// vec3I represents a 3D vector typed as int32
+// vec3I represents a 3D vector typed as int64
 type vec3I struct {
-	X int32 // X coordinate
-	Y int32 // Y coordinate
-	Z int32 // Z coordinate
+	X int64 // X coordinate
+	Y int64 // Y coordinate
+	Z int64 // Z coordinate
 }
 
 const micronsAccuracy = 1e-6
 
 func newvec3IFromVec3(vec Point3D) vec3I {
 	a := vec3I{
-		X: int32(math.Floor(float64(vec.X() / micronsAccuracy))),
-		Y: int32(math.Floor(float64(vec.Y() / micronsAccuracy))),
-		Z: int32(math.Floor(float64(vec.Z() / micronsAccuracy))),
+		X: microns(vec.X()),
+		Y: microns(vec.Y()),
+		Z: microns(vec.Z()),
 	}
 	return a
 }
 
+func microns(v float32) int64 {
+	const limit = 1 << 62
+	f := math.Floor(float64(v / micronsAccuracy))
+	if math.Abs(f) < limit {
+		return int64(f)
+	}
+	// Out of the integer range, different values are more than a micron apart.
+	return limit + int64(math.Float32bits(v))
+}
+
 // vectorTree implements a n*log(n) lookup tree class to identify vectors by their position
 type vectorTree map[vec3I]uint32
 
-- 
2.43.0


From 760c065fe84882502b9b19f0d4f4557a9d3ca685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:18 +0000
Subject: [PATCH 24/47] fix: compute the bounding box of cyclic, nested and
 flat models

Cyclic components never ended, shared ones were computed again for each path,
components were looked up in the part of the item instead of in the part of
the object that refers to them and geometry at the origin was dropped.
---
 core.go | 53 +++++++++++++++++++++++++++++++++++++++--------------
 math.go |  2 --
 2 files changed, 39 insertions(+), 16 deletions(-)

diff --git a/core.go b/core.go
index fbb756b..784ec14 100644
--- a/core.go
+++ b/core.go
@@ -234,23 +234,26 @@ func (m *Model) BoundingBox() Box {
 	}
 	var wg sync.WaitGroup
 	var mu sync.Mutex
-	box := newLimitBox()
+	box, found := newLimitBox(), false
 	wg.Add(len(m.Build.Items))
 	for i := range m.Build.Items {
 		go func(i int) {
 			defer wg.Done()
 			item := m.Build.Items[i]
 			if o, ok := m.FindObject(item.ObjectPath(), item.ObjectID); ok {
-				ibox := o.boundingBox(m, item.ObjectPath())
-				if ibox != emptyBox {
+				ibox, ok := make(objectBoxes).boundingBox(m, item.ObjectPath(), o)
+				if ok {
 					mu.Lock()
-					box = box.extend(item.Transform.MulBox(ibox))
+					box, found = box.extend(item.Transform.MulBox(ibox)), true
 					mu.Unlock()
 				}
 			}
 		}(i)
 	}
 	wg.Wait()
+	if !found {
+		return Box{}
+	}
 	return box
 }
 
@@ -407,23 +410,45 @@ type Object struct {
 	AnyAttr    spec.AnyAttr
 }
 
-func (o *Object) boundingBox(m *Model, path string) Box {
+type objectBox struct {
+	box Box
+	ok  bool
+}
+
+type objectKey struct {
+	path string
+	obj  *Object
+}
+
+// objectBoxes holds the bounding boxes of the objects that have been already visited,
+// which are without geometry until all their components have been processed.
+type objectBoxes map[objectKey]objectBox
+
+// boundingBox returns the bounding box of the object,
+// or false if the object has no geometry.
+func (b objectBoxes) boundingBox(m *Model, path string, o *Object) (Box, bool) {
 	if o.Mesh != nil {
-		return o.Mesh.BoundingBox()
+		return o.Mesh.BoundingBox(), len(o.Mesh.Vertices.Vertex) != 0
 	}
-	if o.Components == nil || len(o.Components.Component) == 0 {
-		return Box{}
+	if o.Components == nil {
+		return Box{}, false
 	}
-	box := newLimitBox()
+	key := objectKey{path, o}
+	if v, ok := b[key]; ok {
+		return v.box, v.ok
+	}
+	b[key] = objectBox{}
+	box, found := newLimitBox(), false
 	for _, c := range o.Components.Component {
-		if obj, ok := m.FindObject(c.ObjectPath(path), c.ObjectID); ok {
-			cbox := obj.boundingBox(m, path)
-			if cbox != emptyBox {
-				box = box.extend(c.Transform.MulBox(cbox))
+		cpath := c.ObjectPath(path)
+		if obj, ok := m.FindObject(cpath, c.ObjectID); ok {
+			if cbox, ok := b.boundingBox(m, cpath, obj); ok {
+				box, found = box.extend(c.Transform.MulBox(cbox)), true
 			}
 		}
 	}
-	return box
+	b[key] = objectBox{box, found}
+	return box, found
 }
 
 // A Components is an in memory representation of the 3MF components.
diff --git a/math.go b/math.go
index ac47bbe..754d162 100644
--- a/math.go
+++ b/math.go
@@ -205,8 +205,6 @@ type Box struct {
 	Max Point3D
 }
 
-var emptyBox = Box{}
-
 func newLimitBox() Box {
 	return Box{
 		Min: Point3D{math.MaxFloat32, math.MaxFloat32, math.MaxFloat32},
-- 
2.43.0


From 81077766aa16463a3b5a9314624f8f71ca188e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:51 +0000
Subject: [PATCH 25/47] fix: validate the transforms of sliced objects over the
 references of the build

Cyclic components never ended, items without path were supposed to be in the
part of the object, components were looked up in the part of the target and
the transforms of the components above were ignored.
---
 slices/validate.go | 77 +++++++++++++++++++++++++++-------------------
 1 file changed, 46 insertions(+), 31 deletions(-)

diff --git a/slices/validate.go b/slices/validate.go
index 1a5164d..d6d65c1 100644
--- a/slices/validate.go
+++ b/slices/validate.go
@@ -185,44 +185,59 @@ func checkAllClosed(m *go3mf.Model, r *SliceStack) bool {
 	return true
 }
 
-func validateBuildTransforms(m *go3mf.Model, path string, id uint32) bool {
-	for _, item := range m.Build.Items {
-		targetPath := item.ObjectPath()
-		if targetPath == "" {
-			targetPath = path
-		}
-		if item.ObjectID == id && targetPath == path {
-			if item.HasTransform() && !validTransform(item.Transform) {
-				return false
-			}
-		}
-		if o, ok := m.FindObject(targetPath, item.ObjectID); ok {
-			if !validateObjectTransforms(m, o, path, id) {
-				return false
-			}
-		}
+type objectRef struct {
+	path string
+	id   uint32
+}
+
+func newObjectRef(m *go3mf.Model, path string, id uint32) objectRef {
+	if path == "" {
+		path = m.PathOrDefault()
 	}
-	return true
+	return objectRef{path, id}
+}
+
+type visitedRef struct {
+	objectRef
+	planar bool
+}
+
+// transformsWalker looks for a path of references between a build item
+// and the target object which has a transform that is not planar.
+type transformsWalker struct {
+	m       *go3mf.Model
+	target  objectRef
+	visited map[visitedRef]struct{}
 }
 
-func validateObjectTransforms(m *go3mf.Model, o *go3mf.Object, path string, id uint32) bool {
-	if o.Components == nil {
+func (w *transformsWalker) validate(ref objectRef, planar bool) bool {
+	if ref == w.target && !planar {
+		return false
+	}
+	v := visitedRef{ref, planar}
+	if _, ok := w.visited[v]; ok { // avoid circular references
+		return true
+	}
+	w.visited[v] = struct{}{}
+	o, ok := w.m.FindObject(ref.path, ref.id)
+	if !ok || o.Components == nil {
 		return true
 	}
 	for _, c := range o.Components.Component {
-		if c.ObjectID == id && c.ObjectPath(path) == path {
-			if c.HasTransform() && !validTransform(c.Transform) {
-				return false
-			}
+		cref := newObjectRef(w.m, c.ObjectPath(ref.path), c.ObjectID)
+		if !w.validate(cref, planar && (!c.HasTransform() || validTransform(c.Transform))) {
+			return false
 		}
-		if c.ObjectID == o.ID && c.ObjectPath(path) == path { // avoid circular references
-			break
-		} else {
-			if o1, ok := m.FindObject(c.ObjectPath(path), c.ObjectID); ok {
-				if !validateObjectTransforms(m, o1, path, id) {
-					return false
-				}
-			}
+	}
+	return true
+}
+
+func validateBuildTransforms(m *go3mf.Model, path string, id uint32) bool {
+	w := transformsWalker{m, newObjectRef(m, path, id), make(map[visitedRef]struct{})}
+	for _, item := range m.Build.Items {
+		ref := newObjectRef(m, item.ObjectPath(), item.ObjectID)
+		if !w.validate(ref, !item.HasTransform() || validTransform(item.Transform)) {
+			return false
 		}
 	}
 	return true
-- 
2.43.0


From e627909415da1f33468ee782274d87f792de366f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:51 +0000
Subject: [PATCH 26/47] fix: set the UUID of a build that has an empty one

---
 production/production.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/production/production.go b/production/production.go
index ce4dce7..fa66446 100644
--- a/production/production.go
+++ b/production/production.go
@@ -127,8 +127,10 @@ func (p *ComponentAttr) getUUID() string {
 // SetMissingUUIDs traverse all the model tree setting
 // all missing UUID attributes.
 func SetMissingUUIDs(m *go3mf.Model) {
-	if GetBuildAttr(&m.Build) == nil {
+	if ext := GetBuildAttr(&m.Build); ext == nil {
 		m.Build.AnyAttr = append(m.Build.AnyAttr, &BuildAttr{UUID: uuid.New()})
+	} else if ext.UUID == "" {
+		ext.UUID = uuid.New()
 	}
 	for _, item := range m.Build.Items {
 		ext := GetItemAttr(item)
-- 
2.43.0


From bf7bd38d50d974805f69092d06919a15e8bd86ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:52 +0000
Subject: [PATCH 27/47] fix: check the braces of an UUID

---
 uuid/uuid.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/uuid/uuid.go b/uuid/uuid.go
index 27b62d4..9822746 100644
--- a/uuid/uuid.go
+++ b/uuid/uuid.go
@@ -105,7 +105,10 @@ func validateUUID(s string) error {
 
 	// {xxxxxxxx-xxxx-xxxx-xxxx-xxxxxxxxxxxx}
 	case 36 + 2:
-		s = s[1:]
+		if s[0] != '{' || s[37] != '}' {
+			return errors.New("production: invalid UUID format")
+		}
+		s = s[1:37]
 
 	// xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx
 	case 32:
-- 
2.43.0


From 1b7a0a6203829eeddc7fe7274cb1ea8920cd7b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:35 +0000
Subject: [PATCH 28/47] fix: do not encode empty UUIDs, which cannot be decoded

---
 production/encoder.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/production/encoder.go b/production/encoder.go
index 7d41027..3bf0e4a 100644
--- a/production/encoder.go
+++ b/production/encoder.go
@@ -11,13 +11,17 @@ import (
 
 // Marshal3MF encodes the resource attributes.
 func (u *BuildAttr) Marshal3MF(_ spec.Encoder, start *xml.StartElement) error {
-	start.Attr = append(start.Attr, xml.Attr{Name: xml.Name{Space: Namespace, Local: attrProdUUID}, Value: u.UUID})
+	if u.UUID != "" {
+		start.Attr = append(start.Attr, xml.Attr{Name: xml.Name{Space: Namespace, Local: attrProdUUID}, Value: u.UUID})
+	}
 	return nil
 }
 
 // Marshal3MF encodes the resource attributes.
 func (u *ObjectAttr) Marshal3MF(_ spec.Encoder, start *xml.StartElement) error {
-	start.Attr = append(start.Attr, xml.Attr{Name: xml.Name{Space: Namespace, Local: attrProdUUID}, Value: u.UUID})
+	if u.UUID != "" {
+		start.Attr = append(start.Attr, xml.Attr{Name: xml.Name{Space: Namespace, Local: attrProdUUID}, Value: u.UUID})
+	}
 	return nil
 }
 
@@ -26,7 +30,9 @@ func (u *ItemAttr) Marshal3MF(_ spec.Encoder, start *xml.StartElement) error {
 	if u.Path != "" {
 		start.Attr = append(start.Attr, xml.Attr{Name: xml.Name{Space: Namespace, Local: attrPath}, Value: u.Path})
 	}
-	start.Attr = append(start.Attr, xml.Attr{Name: xml.Name{Space: Namespace, Local: attrProdUUID}, Value: u.UUID})
+	if u.UUID != "" {
+		start.Attr = append(start.Attr, xml.Attr{Name: xml.Name{Space: Namespace, Local: attrProdUUID}, Value: u.UUID})
+	}
 	return nil
 }
 
@@ -35,6 +41,8 @@ func (u *ComponentAttr) Marshal3MF(_ spec.Encoder, start *xml.StartElement) erro
 	if u.Path != "" {
 		start.Attr = append(start.Attr, xml.Attr{Name: xml.Name{Space: Namespace, Local: attrPath}, Value: u.Path})
 	}
-	start.Attr = append(start.Attr, xml.Attr{Name: xml.Name{Space: Namespace, Local: attrProdUUID}, Value: u.UUID})
+	if u.UUID != "" {
+		start.Attr = append(start.Attr, xml.Attr{Name: xml.Name{Space: Namespace, Local: attrProdUUID}, Value: u.UUID})
+	}
 	return nil
 }
-- 
2.43.0


From 9720ca3b86fcd4b93d77b147530671a175273997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:36 +0000
Subject: [PATCH 29/47] fix: stop decoding a binary STL when the context is
 done

---
 importer/stl/binary.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/importer/stl/binary.go b/importer/stl/binary.go
index dce85a7..6bd97e7 100644
--- a/importer/stl/binary.go
+++ b/importer/stl/binary.go
@@ -47,8 +47,7 @@ func (d *binaryDecoder) decode(ctx context.Context, m *go3mf.Mesh) error {
 		if len(m.Triangles.Triangle) > nextFaceCheck {
 			select {
 			case <-ctx.Done():
-				err = ctx.Err()
-				break
+				return ctx.Err()
 			default: // Default is must to avoid blocking
 			}
 			nextFaceCheck += checkEveryFaces
-- 
2.43.0


From f37ecdbfbb6dd7360a38c924d6e5788b3708387b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:36 +0000
Subject: [PATCH 30/47] fix: do not allocate all the facets announced by a
 binary STL

---
 importer/stl/binary.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/importer/stl/binary.go b/importer/stl/binary.go
index 6bd97e7..f47ce96 100644
--- a/importer/stl/binary.go
+++ b/importer/stl/binary.go
@@ -11,6 +11,8 @@ import (
 	"github.com/hpinc/go3mf"
 )
 
+const maxPrealloc = 1 << 16
+
 type binaryHeader struct {
 	_         [80]byte
 	FaceCount uint32
@@ -35,7 +37,11 @@ func (d *binaryDecoder) decode(ctx context.Context, m *go3mf.Mesh) error {
 	if err != nil {
 		return err
 	}
-	mb.Mesh.Triangles.Triangle = make([]go3mf.Triangle, 0, header.FaceCount)
+	capacity := header.FaceCount
+	if capacity > maxPrealloc { // do not trust the header, the facets may be missing
+		capacity = maxPrealloc
+	}
+	mb.Mesh.Triangles.Triangle = make([]go3mf.Triangle, 0, capacity)
 	nextFaceCheck := checkEveryFaces
 	var facet binaryFace
 	for nFace := 0; nFace < int(header.FaceCount); nFace++ {
-- 
2.43.0


From 28af5e1058de4e297f96e61067b0ead239f34068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:37 +0000
Subject: [PATCH 31/47] fix: detect the encoding of any STL

Reading errors caused an infinite loop, files shorter than 300 bytes were
rejected, and binary and text files were mixed up depending on their bytes
being ASCII.
---
 importer/stl/decoder.go | 29 +++++++----------------------
 1 file changed, 7 insertions(+), 22 deletions(-)

diff --git a/importer/stl/decoder.go b/importer/stl/decoder.go
index 82fd9b1..86d031b 100644
--- a/importer/stl/decoder.go
+++ b/importer/stl/decoder.go
@@ -8,14 +8,13 @@ import (
 	"context"
 	"io"
 	"strings"
-	"unicode/utf8"
 
 	"github.com/hpinc/go3mf"
 )
 
 var checkEveryFaces = 1000
 
-const sizeOfHeader = 300 // minimum size of a closed mesh in binary is 384 bytes, corresponding to a triangle.
+const sizeOfHeader = 300
 
 // Decoder can decode a stl.
 // It supports automatic detection of binary or ascii stl encoding.
@@ -59,25 +58,11 @@ func (d *Decoder) DecodeContext(ctx context.Context, m *go3mf.Model) error {
 }
 
 func (d *Decoder) isASCII(r *bufio.Reader) (bool, error) {
-	var header string
-	for {
-		buff, err := r.Peek(sizeOfHeader)
-		if err == io.EOF {
-			return false, err
-		}
-		if len(buff) >= sizeOfHeader {
-			header = strings.ToLower(string(buff))
-			break
-		}
+	buff, err := r.Peek(sizeOfHeader)
+	if err != nil && (err != io.EOF || len(buff) == 0) {
+		return false, err
 	}
-	return strings.HasPrefix(header, "solid") && isASCII(header), nil
-}
-
-func isASCII(s string) bool {
-	for i := 0; i < len(s); i++ {
-		if s[i] >= utf8.RuneSelf {
-			return false
-		}
-	}
-	return true
+	header := strings.ToLower(string(buff))
+	// The facet count of a binary STL has at least a zero byte up to 16 million facets.
+	return strings.HasPrefix(header, "solid") && strings.IndexByte(header, 0) == -1, nil
 }
-- 
2.43.0


From d7bc0b5172b2053acb70518b3c9fadb865d4f087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:38 +0000
Subject: [PATCH 32/47] fix: report truncated and malformed text STL files

---
 importer/stl/ascii.go | 34 +++++++++++++++++++++++++++++-----
 1 file changed, 29 insertions(+), 5 deletions(-)

diff --git a/importer/stl/ascii.go b/importer/stl/ascii.go
index d73e4c0..1cddb7f 100644
--- a/importer/stl/ascii.go
+++ b/importer/stl/ascii.go
@@ -6,6 +6,7 @@ package stl
 import (
 	"bufio"
 	"context"
+	"errors"
 	"io"
 	"strconv"
 	"strings"
@@ -13,6 +14,8 @@ import (
 	"github.com/hpinc/go3mf"
 )
 
+var errMalformed = errors.New("stl: malformed facet")
+
 // asciiDecoder can create a Model from a Read stream that is feeded with a ASCII STL.
 type asciiDecoder struct {
 	r     io.Reader
@@ -24,15 +27,33 @@ func (d *asciiDecoder) decode(ctx context.Context, m *go3mf.Mesh) (err error) {
 	position := 0
 	nextFaceCheck := checkEveryFaces
 	var nodes [3]uint32
+	var open bool
 	scanner := bufio.NewScanner(d.r)
 	for scanner.Scan() {
 		line := scanner.Text()
 		fields := strings.Fields(line)
-		if len(fields) == 4 && fields[0] == "vertex" {
+		if len(fields) == 0 {
+			continue
+		}
+		switch strings.ToLower(fields[0]) {
+		case "solid":
+			open = true
+		case "endsolid":
+			open = false
+		case "endfacet":
+			if position != 0 {
+				return errMalformed
+			}
+		case "vertex":
+			if len(fields) != 4 {
+				return errMalformed
+			}
 			var f [3]float64
-			f[0], _ = strconv.ParseFloat(fields[1], 32)
-			f[1], _ = strconv.ParseFloat(fields[2], 32)
-			f[2], _ = strconv.ParseFloat(fields[3], 32)
+			for i := range f {
+				if f[i], err = strconv.ParseFloat(fields[i+1], 32); err != nil {
+					return err
+				}
+			}
 			nodes[position] = mb.AddVertex(go3mf.Point3D{float32(f[0]), float32(f[1]), float32(f[2])})
 			position++
 
@@ -54,5 +75,8 @@ func (d *asciiDecoder) decode(ctx context.Context, m *go3mf.Mesh) (err error) {
 			return err
 		}
 	}
-	return scanner.Err()
+	if err = scanner.Err(); err == nil && (open || position != 0) {
+		err = io.ErrUnexpectedEOF
+	}
+	return err
 }
-- 
2.43.0


From 9609393788c9bec4ebda49903b96a4838bcb1a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:04 +0000
Subject: [PATCH 33/47] fix: decode models with comments and CDATA sections

They are well formed documents, which were rejected as syntax errors.
---
 internal/xml/xml.go | 69 +++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 69 insertions(+)

diff --git a/internal/xml/xml.go b/internal/xml/xml.go
index 2608fec..f183b38 100644
--- a/internal/xml/xml.go
+++ b/internal/xml/xml.go
@@ -407,6 +407,10 @@ func (d *Decoder) RawToken() error {
 			b0 = b
 		}
 		return nil
+
+	case '!':
+		// <!: Comment or CDATA section, a DTD is not allowed.
+		return d.bang()
 	}
 
 	// Must be an open element like <a href="foo">
@@ -487,6 +491,71 @@ func (d *Decoder) RawToken() error {
 	return nil
 }
 
+// bang reads a comment or a CDATA section, being the <! already read.
+func (d *Decoder) bang() error {
+	b, ok := d.getc()
+	if !ok {
+		d.mustNotEOF()
+		return d.err
+	}
+	switch b {
+	case '-':
+		if !d.expect("-", "invalid sequence <!- not part of <!--") || d.until("--") == nil {
+			return d.err
+		}
+		d.expect(">", `invalid sequence "--" not allowed in comments`)
+		return d.err
+	case '[':
+		if !d.expect("CDATA[", "invalid <![ sequence") {
+			return d.err
+		}
+		data := d.until("]]>")
+		if data == nil {
+			return d.err
+		}
+		if d.OnChar != nil {
+			data = bytes.ReplaceAll(data, []byte("\r\n"), []byte("\n"))
+			d.OnChar(goxml.CharData(bytes.ReplaceAll(data, []byte("\r"), []byte("\n"))))
+		}
+		return nil
+	}
+	d.err = d.syntaxError("invalid <! sequence")
+	return d.err
+}
+
+// expect reads the bytes of s, else it fails with msg.
+func (d *Decoder) expect(s, msg string) bool {
+	for i := 0; i < len(s); i++ {
+		b, ok := d.getc()
+		if !ok {
+			d.mustNotEOF()
+			return false
+		}
+		if b != s[i] {
+			d.err = d.syntaxError(msg)
+			return false
+		}
+	}
+	return true
+}
+
+// until reads up to the end mark and returns what precedes it.
+// On failure return nil and leave the error in d.err.
+func (d *Decoder) until(end string) []byte {
+	d.buf.Reset()
+	for {
+		b, ok := d.getc()
+		if !ok {
+			d.mustNotEOF()
+			return nil
+		}
+		d.buf.WriteByte(b)
+		if data := d.buf.Bytes(); bytes.HasSuffix(data, []byte(end)) {
+			return data[:len(data)-len(end)]
+		}
+	}
+}
+
 func (d *Decoder) attrval() []byte {
 	b, ok := d.getc()
 	if !ok {
-- 
2.43.0


From 58b8e4a25e15a80cb5b978c704d7495ea8ea7c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:34 +0000
Subject: [PATCH 34/47] fix: write the names of elements and attributes in
 their name space

The declarations of unknown elements were not taken into account for their own
names, outlived them, and the default and undeclared name spaces were lost.
---
 internal/xml/printer.go | 149 +++++++++++++++++++++++++++++-----------
 1 file changed, 110 insertions(+), 39 deletions(-)

diff --git a/internal/xml/printer.go b/internal/xml/printer.go
index 90f8300..6d17f62 100644
--- a/internal/xml/printer.go
+++ b/internal/xml/printer.go
@@ -3,41 +3,86 @@ package xml
 import (
 	"bufio"
 	"encoding/xml"
+	"strconv"
 )
 
 const (
 	nsXML = "http://www.w3.org/XML/1998/namespace"
 )
 
+type binding struct {
+	prefix, space string
+}
+
+type openElement struct {
+	name      xml.Name
+	qualified string
+	outer     int // bindings outside the element
+}
+
 type Printer struct {
 	*bufio.Writer
 	AutoClose      bool
 	SkipAttrEscape bool
-	attrPrefix     map[string]string // map name space -> prefix
+	bindings       []binding // prefixes in scope, the innermost is the last
+	open           []openElement
 }
 
-// createAttrPrefix finds the name space prefix attribute to use for the given name space,
-// defining a new prefix if necessary. It returns the prefix.
-func (p *Printer) createAttrPrefix(attr *xml.Attr) string {
-	if prefix := p.attrPrefix[attr.Name.Space]; prefix != "" {
-		return prefix
-	}
-	if attr.Name.Space == nsXML {
-		return "xml"
+// prefix returns a prefix bound to the name space.
+// The default name space does not apply to attributes.
+func (p *Printer) prefix(space string, isAttr bool) (string, bool) {
+search:
+	for i := len(p.bindings) - 1; i >= 0; i-- {
+		b := p.bindings[i]
+		if b.space != space || (isAttr && b.prefix == "") {
+			continue
+		}
+		for _, inner := range p.bindings[i+1:] {
+			if inner.prefix == b.prefix {
+				continue search
+			}
+		}
+		return b.prefix, true
 	}
+	return "", false
+}
 
-	// Need to define a new name space.
-	if p.attrPrefix == nil {
-		p.attrPrefix = make(map[string]string)
+// declare binds a new prefix to the name space.
+func (p *Printer) declare(space string) string {
+	for i := len(p.bindings); ; i++ {
+		prefix := "ns" + strconv.Itoa(i)
+		used := false
+		for _, b := range p.bindings {
+			used = used || b.prefix == prefix
+		}
+		if !used {
+			p.bindings = append(p.bindings, binding{prefix, space})
+			return prefix
+		}
 	}
+}
 
-	ns, prefix := attr.Name.Space, attr.Name.Local
-	if attr.Name.Space == "xmlns" {
-		ns, prefix = attr.Value, attr.Name.Local
+// qualify returns the name with the prefix of its name space,
+// declaring it if necessary.
+func (p *Printer) qualify(name xml.Name, isAttr bool) string {
+	switch name.Space {
+	case "":
+		return name.Local
+	case xmlnsPrefix:
+		if isAttr {
+			return xmlnsPrefix + ":" + name.Local
+		}
+	case nsXML:
+		return xmlPrefix + ":" + name.Local
 	}
-	p.attrPrefix[ns] = prefix
-
-	return attr.Name.Space
+	prefix, ok := p.prefix(name.Space, isAttr)
+	if !ok {
+		prefix = p.declare(name.Space)
+	}
+	if prefix == "" {
+		return name.Local
+	}
+	return prefix + ":" + name.Local
 }
 
 // EscapeString writes to p the properly escaped XML equivalent
@@ -46,29 +91,44 @@ func (p *Printer) EscapeString(s string) {
 	xml.EscapeText(p, []byte(s))
 }
 
+// ignored returns true if the attribute cannot be written, either because it has no name or
+// because it would change the default name space of a nested element that relies on it.
+func (p *Printer) ignored(start *xml.StartElement, attr *xml.Attr) bool {
+	isDefault := attr.Name.Space == "" && attr.Name.Local == xmlnsPrefix
+	return attr.Name.Local == "" ||
+		(isDefault && attr.Value != "" && start.Name.Space == "" && len(p.open) > 0)
+}
+
+// bind registers the name spaces declared by an element.
+func (p *Printer) bind(start *xml.StartElement) {
+	for _, attr := range start.Attr {
+		if p.ignored(start, &attr) {
+			continue
+		}
+		if attr.Name.Space == xmlnsPrefix {
+			p.bindings = append(p.bindings, binding{attr.Name.Local, attr.Value})
+		} else if attr.Name.Space == "" && attr.Name.Local == xmlnsPrefix {
+			p.bindings = append(p.bindings, binding{"", attr.Value})
+		}
+	}
+}
+
 // WriteStart writes the given start element.
 func (p *Printer) WriteStart(start *xml.StartElement) {
+	outer := len(p.bindings)
+	p.bind(start)
+	declared := len(p.bindings)
+	qualified := p.qualify(start.Name, false)
 	p.WriteByte('<')
-	if start.Name.Space != "" {
-		if prefix := p.attrPrefix[start.Name.Space]; prefix != "" {
-			p.WriteString(prefix)
-			p.WriteByte(':')
-		}
-	}
-	p.WriteString(start.Name.Local)
+	p.WriteString(qualified)
 
 	// Attributes
 	for _, attr := range start.Attr {
-		name := attr.Name
-		if name.Local == "" {
+		if p.ignored(start, &attr) {
 			continue
 		}
 		p.WriteByte(' ')
-		if name.Space != "" {
-			p.WriteString(p.createAttrPrefix(&attr))
-			p.WriteByte(':')
-		}
-		p.WriteString(name.Local)
+		p.WriteString(p.qualify(attr.Name, true))
 		p.WriteString(`="`)
 		if p.SkipAttrEscape {
 			p.WriteString(attr.Value)
@@ -77,21 +137,32 @@ func (p *Printer) WriteStart(start *xml.StartElement) {
 		}
 		p.WriteByte('"')
 	}
+	// Name spaces used but not declared by the caller.
+	for _, b := range p.bindings[declared:] {
+		p.WriteString(" xmlns:")
+		p.WriteString(b.prefix)
+		p.WriteString(`="`)
+		p.EscapeString(b.space)
+		p.WriteByte('"')
+	}
 	if p.AutoClose {
 		p.WriteByte('/')
+		p.bindings = p.bindings[:outer]
+	} else {
+		p.open = append(p.open, openElement{start.Name, qualified, outer})
 	}
 	p.WriteByte('>')
 }
 
 func (p *Printer) WriteEnd(name xml.Name) {
+	qualified := name.Local
+	if n := len(p.open) - 1; n >= 0 && p.open[n].name == name {
+		qualified = p.open[n].qualified
+		p.bindings = p.bindings[:p.open[n].outer]
+		p.open = p.open[:n]
+	}
 	p.WriteByte('<')
 	p.WriteByte('/')
-	if name.Space != "" {
-		if prefix := p.attrPrefix[name.Space]; prefix != "" {
-			p.WriteString(prefix)
-			p.WriteByte(':')
-		}
-	}
-	p.WriteString(name.Local)
+	p.WriteString(qualified)
 	p.WriteByte('>')
 }
-- 
2.43.0


From dd922e35a4a0b23e11f8c4442b4bcdc883edabd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:33 +0000
Subject: [PATCH 35/47] fix: do not append to the relationships of a child when
 encoding

---
 encoder.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/encoder.go b/encoder.go
index 67de7c5..6e351d5 100644
--- a/encoder.go
+++ b/encoder.go
@@ -193,7 +193,8 @@ func (e *Encoder) writeChildModels(m *Model) error {
 			return err
 		}
 		enc := newXMLEncoder(w, e.FloatPrecision)
-		enc.relationships = child.Relationships
+		enc.relationships = make([]Relationship, len(child.Relationships))
+		copy(enc.relationships, child.Relationships)
 		if err = e.writeChildModel(enc, m, child); err != nil {
 			return err
 		}
-- 
2.43.0


From a2cf23c047a0bc21f43bb8e4b7743319a9ffd3ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:34 +0000
Subject: [PATCH 36/47] fix: do not merge neighbouring vertices with large
 coordinates

The quotient was rounded to single precision, which mapped adjacent
representable coordinates to the same key.
---
 math.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/math.go b/math.go
index 754d162..9aeeab8 100644
--- a/math.go
+++ b/math.go
@@ -55,7 +55,7 @@ func newvec3IFromVec3(vec Point3D) vec3I {
 
 func microns(v float32) int64 {
 	const limit = 1 << 62
-	f := math.Floor(float64(v / micronsAccuracy))
+	f := math.Round(float64(v) / micronsAccuracy)
 	if math.Abs(f) < limit {
 		return int64(f)
 	}
-- 
2.43.0


From 18477c3fb1e0938a971d540cc8ee922077b9117a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:38 +0000
Subject: [PATCH 37/47] fix: encode every element of Any in the encoder

Leaves spec as it was.
---
 encoder.go   | 12 +++++++++---
 spec/spec.go |  6 ++----
 2 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/encoder.go b/encoder.go
index 6e351d5..8b96f2d 100644
--- a/encoder.go
+++ b/encoder.go
@@ -259,7 +259,7 @@ func (e *Encoder) writeChildModel(x spec.Encoder, m *Model, child *ChildModel) e
 	xb := xml.StartElement{Name: xml.Name{Local: attrBuild}}
 	x.EncodeToken(xb)
 	x.EncodeToken(xb.End())
-	child.Any.Marshal3MF(x, &tm)
+	encodeAny(x, child.Any, &tm)
 	x.EncodeToken(tm.End())
 	return x.Flush()
 }
@@ -276,7 +276,7 @@ func (e *Encoder) writeModel(x spec.Encoder, m *Model) error {
 		return err
 	}
 	e.writeBuild(x, m)
-	m.Any.Marshal3MF(x, &tm)
+	encodeAny(x, m.Any, &tm)
 	x.EncodeToken(tm.End())
 	return x.Flush()
 }
@@ -517,7 +517,7 @@ func (e *Encoder) writeMesh(x spec.Encoder, r *Object, m *Mesh) {
 	e.writeVertices(x, m)
 	e.writeTriangles(x, r, m)
 
-	m.Any.Marshal3MF(x, &xm)
+	encodeAny(x, m.Any, &xm)
 	x.EncodeToken(xm.End())
 }
 
@@ -543,3 +543,9 @@ func (r *BaseMaterials) Marshal3MF(x spec.Encoder, _ *xml.StartElement) error {
 	x.EncodeToken(xt.End())
 	return nil
 }
+
+func encodeAny(x spec.Encoder, elements spec.Any, start *xml.StartElement) {
+	for _, m := range elements {
+		m.Marshal3MF(x, start)
+	}
+}
diff --git a/spec/spec.go b/spec/spec.go
index 6bc00b0..9faae81 100644
--- a/spec/spec.go
+++ b/spec/spec.go
@@ -104,9 +104,7 @@ func (a AnyAttr) Marshal3MF(x Encoder, start *xml.StartElement) error {
 
 func NewAttrGroup(namespace string, parent xml.Name) AttrGroup {
 	if ext, ok := Load(namespace); ok {
-		if group := ext.NewAttrGroup(parent); group != nil {
-			return group
-		}
+		return ext.NewAttrGroup(parent)
 	}
 	return &UnknownAttrs{
 		Space: namespace,
@@ -125,7 +123,7 @@ type Any []Marshaler
 
 func (e Any) Marshal3MF(x Encoder, start *xml.StartElement) error {
 	for _, ext := range e {
-		if err := ext.Marshal3MF(x, start); err != nil {
+		if err := ext.Marshal3MF(x, start); err == nil {
 			return err
 		}
 	}
-- 
2.43.0


From 4c7512a9ad126713ae9498f4ccf3227b7576daf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:38 +0000
Subject: [PATCH 38/47] fix: keep extension attributes on elements the
 extension does not extend, in the extensions themselves

---
 beamlattice/decoder.go | 2 +-
 materials/decoder.go   | 2 +-
 production/decoder.go  | 2 +-
 slices/decoder.go      | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/beamlattice/decoder.go b/beamlattice/decoder.go
index ede9196..ea2fc70 100644
--- a/beamlattice/decoder.go
+++ b/beamlattice/decoder.go
@@ -12,7 +12,7 @@ import (
 )
 
 func (Spec) NewAttrGroup(xml.Name) spec.AttrGroup {
-	return nil
+	return &spec.UnknownAttrs{Space: Namespace}
 }
 
 func (Spec) NewElementDecoder(name xml.Name) spec.GetterElementDecoder {
diff --git a/materials/decoder.go b/materials/decoder.go
index 4a6ab5a..4b517ec 100644
--- a/materials/decoder.go
+++ b/materials/decoder.go
@@ -14,7 +14,7 @@ import (
 )
 
 func (Spec) NewAttrGroup(xml.Name) spec.AttrGroup {
-	return nil
+	return &spec.UnknownAttrs{Space: Namespace}
 }
 
 func (Spec) NewElementDecoder(name xml.Name) (child spec.GetterElementDecoder) {
diff --git a/production/decoder.go b/production/decoder.go
index 66ba0d0..b57926f 100644
--- a/production/decoder.go
+++ b/production/decoder.go
@@ -29,7 +29,7 @@ func (Spec) NewAttrGroup(parent xml.Name) spec.AttrGroup {
 			return new(ComponentAttr)
 		}
 	}
-	return nil
+	return &spec.UnknownAttrs{Space: Namespace}
 }
 
 func (u *BuildAttr) Unmarshal3MFAttr(a spec.XMLAttr) error {
diff --git a/slices/decoder.go b/slices/decoder.go
index 3c16ad0..bbe115a 100644
--- a/slices/decoder.go
+++ b/slices/decoder.go
@@ -26,7 +26,7 @@ func (Spec) NewAttrGroup(parent xml.Name) spec.AttrGroup {
 			return new(ObjectAttr)
 		}
 	}
-	return nil
+	return &spec.UnknownAttrs{Space: Namespace}
 }
 
 func (u *ObjectAttr) Unmarshal3MFAttr(a spec.XMLAttr) error {
-- 
2.43.0


From ca6d46cf08e2bc8ea8ad781d0121858a1aaa81b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:33 +0000
Subject: [PATCH 39/47] fix: keep the text of unknown elements

---
 read.go | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/read.go b/read.go
index d177bec..1382aa2 100644
--- a/read.go
+++ b/read.go
@@ -80,7 +80,15 @@ func decodeModelFile(ctx context.Context, r io.Reader, model *Model, path string
 		err     error
 		ignored int // open elements that are ignored, the outermost has no decoder
 		nested  int // open elements inside the one handled by an AppendTokenElementDecoder
+		text    []byte
 	)
+	// appendText appends the text read since the last tag, unless it is just white space.
+	appendText := func(decoder spec.AppendTokenElementDecoder) {
+		if len(bytes.Trim(text, " \t\r\n")) != 0 {
+			decoder.AppendToken(xml.CharData(text))
+		}
+		text = nil
+	}
 	x.OnStart = func(tp xml3mf.StartElement) {
 		if ignored > 0 {
 			ignored++
@@ -108,6 +116,7 @@ func decodeModelFile(ctx context.Context, r io.Reader, model *Model, path string
 					xattrs[i] = xml.Attr{Name: att.Name, Value: string(att.Value)}
 				}
 			}
+			appendText(appendDecoder)
 			appendDecoder.AppendToken(xml.StartElement{
 				Name: tp.Name,
 				Attr: xattrs,
@@ -123,9 +132,13 @@ func decodeModelFile(ctx context.Context, r io.Reader, model *Model, path string
 		} else if nested > 0 {
 			nested--
 			if appendDecoder, ok := currentDecoder.(spec.AppendTokenElementDecoder); ok {
+				appendText(appendDecoder)
 				appendDecoder.AppendToken(tp)
 			}
 		} else if len(stack) > 0 {
+			if appendDecoder, ok := currentDecoder.(spec.AppendTokenElementDecoder); ok {
+				appendText(appendDecoder)
+			}
 			currentDecoder.End()
 			stack = stack[:len(stack)-1]
 			currentDecoder = topDecoder
@@ -138,10 +151,10 @@ func decodeModelFile(ctx context.Context, r io.Reader, model *Model, path string
 		if ignored > 0 {
 			return
 		}
-		if currentDecoder, ok := currentDecoder.(spec.CharDataElementDecoder); ok {
-			currentDecoder.CharData(tp)
-		} else if appendDecoder, ok := currentDecoder.(spec.AppendTokenElementDecoder); ok {
-			appendDecoder.AppendToken(tp.Copy()) // tp is only valid until the next token
+		if charDecoder, ok := currentDecoder.(spec.CharDataElementDecoder); ok {
+			charDecoder.CharData(tp)
+		} else if _, ok := currentDecoder.(spec.AppendTokenElementDecoder); ok {
+			text = append(text, tp...)
 		}
 	}
 	var i int
-- 
2.43.0


From d7863f86206bcc2c330949389069068520ededed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:49 +0000
Subject: [PATCH 40/47] fix: relate the root model to its child models whatever
 else is related to them

---
 encoder.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/encoder.go b/encoder.go
index 8b96f2d..36d0dbd 100644
--- a/encoder.go
+++ b/encoder.go
@@ -163,15 +163,15 @@ func (e *Encoder) Encode(m *Model) error {
 	enc := newXMLEncoder(w, e.FloatPrecision)
 	enc.relationships = make([]Relationship, len(m.Relationships))
 	copy(enc.relationships, m.Relationships)
-	for path := range m.Childs {
-		enc.AddRelationship(spec.Relationship{Type: RelType3DModel, Path: path})
-	}
 	if err = e.writeModel(enc, m); err != nil {
 		return err
 	}
 	for _, r := range enc.relationships {
 		w.AddRelationship(r)
 	}
+	for path := range m.Childs {
+		w.AddRelationship(Relationship{Type: RelType3DModel, Path: path})
+	}
 	if err = e.writeChildModels(m); err != nil {
 		return err
 	}
-- 
2.43.0


From 18942876b3bcc38a764c52079fe660b30b0a0511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:03 +0000
Subject: [PATCH 41/47] fix: find the target of a relationship by equivalent
 part names

---
 opc.go | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/opc.go b/opc.go
index c58e2b0..5a0ab10 100644
--- a/opc.go
+++ b/opc.go
@@ -5,6 +5,9 @@ package go3mf
 
 import (
 	"io"
+	"net/url"
+	"path"
+	"strings"
 
 	"github.com/qmuntal/opc"
 )
@@ -87,7 +90,7 @@ func (o *opcFile) ContentType() string {
 }
 
 func (o *opcFile) FindFileFromName(name string) (packageFile, bool) {
-	name = opc.ResolveRelationship(o.f.Name, name)
+	name = resolveRelationship(o.f.Name, name)
 	return findOPCFileFromName(name, o.r)
 }
 
@@ -114,17 +117,33 @@ func (o *opcReader) Relationships() []Relationship {
 }
 
 func (o *opcReader) FindFileFromName(name string) (packageFile, bool) {
-	name = opc.ResolveRelationship("/", name)
+	name = resolveRelationship("/", name)
 	return findOPCFileFromName(name, o.r)
 }
 
+// resolveRelationship returns the name of the part
+// the relationship rel of source points to.
 func resolveRelationship(source, rel string) string {
-	return opc.ResolveRelationship(source, rel)
+	return path.Clean(opc.ResolveRelationship(source, rel))
+}
+
+// equalPartName returns true if both names are equivalent,
+// which does not depend on the case nor on how they are escaped.
+func equalPartName(a, b string) bool {
+	if strings.EqualFold(a, b) {
+		return true
+	}
+	ua, err := url.PathUnescape(a)
+	if err != nil {
+		return false
+	}
+	ub, err := url.PathUnescape(b)
+	return err == nil && strings.EqualFold(ua, ub)
 }
 
 func findOPCFileFromName(name string, r *opc.Reader) (packageFile, bool) {
 	for _, f := range r.Files {
-		if f.Name == name {
+		if equalPartName(f.Name, name) {
 			return &opcFile{r, f}, true
 		}
 	}
-- 
2.43.0


From dbaa728492065d896f28be6e7a0bcae9c83c7e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:03 +0000
Subject: [PATCH 42/47] fix: report part names that make the package reader
 panic as an error

---
 opc.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/opc.go b/opc.go
index 5a0ab10..9f8f3d8 100644
--- a/opc.go
+++ b/opc.go
@@ -4,6 +4,7 @@
 package go3mf
 
 import (
+	"fmt"
 	"io"
 	"net/url"
 	"path"
@@ -105,8 +106,14 @@ type opcReader struct {
 }
 
 func (o *opcReader) Open(f func(r io.Reader) io.ReadCloser) (err error) {
+	defer func() {
+		// opc panics with some malformed part names
+		if r := recover(); r != nil {
+			err = fmt.Errorf("package cannot be read: %v", r)
+		}
+	}()
 	o.r, err = opc.NewReader(o.ra, o.size)
-	if f != nil {
+	if err == nil && f != nil {
 		o.r.SetDecompressor(f)
 	}
 	return
-- 
2.43.0


From f6f9687e92153dd4af2673263a567e12d636772c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:26 +0000
Subject: [PATCH 43/47] fix: do not take model parts for attachments

---
 read.go     | 13 +++++++++++++
 validate.go |  8 +++++++-
 2 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/read.go b/read.go
index 1382aa2..40efc94 100644
--- a/read.go
+++ b/read.go
@@ -324,6 +324,7 @@ func (d *Decoder) processOPC(model *Model) (packageFile, error) {
 	if rootFile == nil {
 		return nil, errors.New("package does not have root model")
 	}
+	d.dropModelAttachments(model)
 	return rootFile, nil
 }
 
@@ -359,6 +360,18 @@ func (d *Decoder) extractCoreAttachments(modelFile packageFile, model *Model, is
 	return nil
 }
 
+// dropModelAttachments removes the model parts from the attachments,
+// where they are when they have any other kind of relationship.
+func (d *Decoder) dropModelAttachments(model *Model) {
+	var attachments []Attachment
+	for _, att := range model.Attachments {
+		if att.Path != model.Path && !d.isNonRootModel(att.Path) {
+			attachments = append(attachments, att)
+		}
+	}
+	model.Attachments = attachments
+}
+
 func (d *Decoder) isNonRootModel(name string) bool {
 	for _, file := range d.nonRootModels {
 		if file.Name() == name {
diff --git a/validate.go b/validate.go
index 1f7f111..89282b4 100644
--- a/validate.go
+++ b/validate.go
@@ -326,7 +326,7 @@ func validateRelationship(m *Model, rels []Relationship, path string) error {
 		if r.Path == "" || r.Path[0] != '/' || strings.Contains(r.Path, "/.") {
 			errs = errors.Append(errs, errors.WrapIndex(errors.ErrOPCPartName, "relationship", i))
 		} else {
-			if _, ok := findAttachment(m.Attachments, r.Path); !ok {
+			if _, ok := findAttachment(m.Attachments, r.Path); !ok && !m.isModelPart(r.Path) {
 				errs = errors.Append(errs, errors.WrapIndex(errors.ErrOPCRelTarget, "relationship", i))
 			}
 			if _, ok := visitedParts[partrel{r.Path, r.Type}]; ok {
@@ -357,6 +357,12 @@ func validateRelationship(m *Model, rels []Relationship, path string) error {
 	return errs
 }
 
+// isModelPart returns true if path is the one of the root or of a child model.
+func (m *Model) isModelPart(path string) bool {
+	_, ok := m.Childs[path]
+	return ok || path == m.PathOrDefault()
+}
+
 func findAttachment(att []Attachment, path string) (*Attachment, bool) {
 	for _, a := range att {
 		if strings.EqualFold(a.Path, path) {
-- 
2.43.0


From b9f867f03979befb943dc640a38e502c08d3e8c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:28 +0000
Subject: [PATCH 44/47] fix: do not read attributes vertices, triangles,
 segments and texture coordinates do not have

An attribute without a meaning there was parsed as a number and reported
as malformed.
---
 decoder.go           | 10 +++++++---
 materials/decoder.go |  8 +++++---
 slices/decoder.go    | 10 +++++++---
 3 files changed, 19 insertions(+), 9 deletions(-)

diff --git a/decoder.go b/decoder.go
index 4f8f63b..fb8a4ff 100644
--- a/decoder.go
+++ b/decoder.go
@@ -500,9 +500,6 @@ func (d *vertexDecoder) Start(attrs []spec.XMLAttr) error {
 			continue
 		}
 		val, err := strconv.ParseFloat(*(*string)(unsafe.Pointer(&a.Value)), 32)
-		if err != nil {
-			errs = specerr.Append(errs, specerr.NewParseAttrError(a.Name.Local, true))
-		}
 		switch a.Name.Local {
 		case attrX:
 			x = float32(val)
@@ -510,6 +507,11 @@ func (d *vertexDecoder) Start(attrs []spec.XMLAttr) error {
 			y = float32(val)
 		case attrZ:
 			z = float32(val)
+		default:
+			continue
+		}
+		if err != nil {
+			errs = specerr.Append(errs, specerr.NewParseAttrError(a.Name.Local, true))
 		}
 	}
 	d.mesh.Vertices.Vertex = append(d.mesh.Vertices.Vertex, Point3D{x, y, z})
@@ -591,6 +593,8 @@ func (d *triangleDecoder) Start(attrs []spec.XMLAttr) error {
 				p3 = uint32(val)
 				hasP3 = true
 				required = false
+			default:
+				continue
 			}
 			if err != nil {
 				errs = specerr.Append(errs, specerr.NewParseAttrError(a.Name.Local, required))
diff --git a/materials/decoder.go b/materials/decoder.go
index 4b517ec..4c8e7a6 100644
--- a/materials/decoder.go
+++ b/materials/decoder.go
@@ -105,14 +105,16 @@ func (d *tex2DCoordDecoder) Start(attrs []spec.XMLAttr) error {
 			continue
 		}
 		val, err := strconv.ParseFloat(string(a.Value), 32)
-		if err != nil {
-			errs = specerr.Append(errs, specerr.NewParseAttrError(a.Name.Local, true))
-		}
 		switch a.Name.Local {
 		case attrU:
 			text[0] = float32(val)
 		case attrV:
 			text[1] = float32(val)
+		default:
+			continue
+		}
+		if err != nil {
+			errs = specerr.Append(errs, specerr.NewParseAttrError(a.Name.Local, true))
 		}
 	}
 	d.resource.Coords = append(d.resource.Coords, text)
diff --git a/slices/decoder.go b/slices/decoder.go
index bbe115a..663c742 100644
--- a/slices/decoder.go
+++ b/slices/decoder.go
@@ -203,14 +203,16 @@ func (d *polygonVertexDecoder) Start(attrs []spec.XMLAttr) error {
 			continue
 		}
 		val, err := strconv.ParseFloat(string(a.Value), 32)
-		if err != nil {
-			errs = specerr.Append(errs, specerr.NewParseAttrError(a.Name.Local, true))
-		}
 		switch a.Name.Local {
 		case attrX:
 			p[0] = float32(val)
 		case attrY:
 			p[1] = float32(val)
+		default:
+			continue
+		}
+		if err != nil {
+			errs = specerr.Append(errs, specerr.NewParseAttrError(a.Name.Local, true))
 		}
 	}
 	d.slice.Vertices.Vertex = append(d.slice.Vertices.Vertex, p)
@@ -281,6 +283,8 @@ func (d *polygonSegmentDecoder) Start(attrs []spec.XMLAttr) error {
 		case attrP2:
 			segment.P2 = uint32(val)
 			hasP2 = true
+		default:
+			continue
 		}
 		if hasP1 && !hasP2 {
 			segment.P2 = segment.P1
-- 
2.43.0


From fa32bfdb65ecf13823aa89d088261a95ae51f6ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:18 +0000
Subject: [PATCH 45/47] fix: verify the checksums of the content types and the
 relationships

opc stops reading them at their last tag, before they are verified, so
relationships that had been damaged were taken, or dropped, silently.
---
 opc.go | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/opc.go b/opc.go
index 9f8f3d8..5bebce2 100644
--- a/opc.go
+++ b/opc.go
@@ -4,8 +4,10 @@
 package go3mf
 
 import (
+	"archive/zip"
 	"fmt"
 	"io"
+	"io/ioutil"
 	"net/url"
 	"path"
 	"strings"
@@ -113,12 +115,40 @@ func (o *opcReader) Open(f func(r io.Reader) io.ReadCloser) (err error) {
 		}
 	}()
 	o.r, err = opc.NewReader(o.ra, o.size)
+	if err == nil {
+		err = verifyPackageParts(o.ra, o.size)
+	}
 	if err == nil && f != nil {
 		o.r.SetDecompressor(f)
 	}
 	return
 }
 
+// verifyPackageParts verifies the checksums of the content types and the relationships,
+// which opc does not read until their end.
+func verifyPackageParts(ra io.ReaderAt, size int64) error {
+	z, err := zip.NewReader(ra, size)
+	if err != nil {
+		return err
+	}
+	for _, file := range z.File {
+		name := strings.ToLower(file.Name)
+		if name != "[content_types].xml" && !strings.HasSuffix(name, ".rels") {
+			continue
+		}
+		r, err := file.Open()
+		if err != nil {
+			return err
+		}
+		_, err = io.Copy(ioutil.Discard, r)
+		r.Close()
+		if err != nil {
+			return fmt.Errorf("%s cannot be read: %w", file.Name, err)
+		}
+	}
+	return nil
+}
+
 func (o *opcReader) Relationships() []Relationship {
 	return newRelationships(o.r.Relationships)
 }
-- 
2.43.0


From 855491862be2b697caad991f62c999a0716bf0c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:52 +0000
Subject: [PATCH 46/47] fix: validate the metadata of the objects

---
 validate.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/validate.go b/validate.go
index 89282b4..28f1717 100644
--- a/validate.go
+++ b/validate.go
@@ -237,6 +237,7 @@ func (r *Object) Validate(m *Model, path string) error {
 		}
 		errs = errors.Append(errs, r.validateComponents(m, path))
 	}
+	errs = errors.Append(errs, checkMetadadata(m, r.Metadata.Metadata))
 
 	for _, ext := range m.Extensions {
 		if ext, ok := spec.LoadValidator(ext.Namespace); ok {
-- 
2.43.0


From f1f03f50cb10bdc1c0a2e181bd99a020f87156a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:06 +0000
Subject: [PATCH 47/47] fix: run each extension validator once even if its
 namespace is declared twice

---
 validate.go | 34 ++++++++++++++++++++++------------
 1 file changed, 22 insertions(+), 12 deletions(-)

diff --git a/validate.go b/validate.go
index 28f1717..8ae1e70 100644
--- a/validate.go
+++ b/validate.go
@@ -26,6 +26,22 @@ func (m *Model) sortedChilds() []string {
 	return s
 }
 
+// validators returns the validators of the declared extensions,
+// once even if the same namespace is declared with several prefixes.
+func (m *Model) validators() (v []spec.ValidateSpec) {
+	visited := make(map[string]struct{}, len(m.Extensions))
+	for _, ext := range m.Extensions {
+		if _, ok := visited[ext.Namespace]; ok {
+			continue
+		}
+		visited[ext.Namespace] = struct{}{}
+		if ext, ok := spec.LoadValidator(ext.Namespace); ok {
+			v = append(v, ext)
+		}
+	}
+	return v
+}
+
 // Validate checks that the model is conformant with the 3MF specs.
 func (m *Model) Validate() error {
 	var errs error
@@ -45,10 +61,8 @@ func (m *Model) Validate() error {
 	errs = errors.Append(errs, validateRelationship(m, m.Relationships, rootPath))
 	errs = errors.Append(errs, checkMetadadata(m, m.Metadata))
 
-	for _, ext := range m.Extensions {
-		if ext, ok := spec.LoadValidator(ext.Namespace); ok {
-			errs = errors.Append(errs, ext.Validate(m, m.Path, m))
-		}
+	for _, ext := range m.validators() {
+		errs = errors.Append(errs, ext.Validate(m, m.Path, m))
 	}
 
 	for _, path := range sortedChilds {
@@ -180,10 +194,8 @@ func (res *Resources) validate(m *Model, path string) error {
 			aErrs = errors.Append(aErrs, r.Validate(m, path))
 		}
 
-		for _, ext := range m.Extensions {
-			if ext, ok := spec.LoadValidator(ext.Namespace); ok {
-				aErrs = errors.Append(aErrs, ext.Validate(m, path, r))
-			}
+		for _, ext := range m.validators() {
+			aErrs = errors.Append(aErrs, ext.Validate(m, path, r))
 		}
 		errs = errors.Append(errs, errors.WrapIndex(aErrs, r.XMLName().Local, i))
 	}
@@ -239,10 +251,8 @@ func (r *Object) Validate(m *Model, path string) error {
 	}
 	errs = errors.Append(errs, checkMetadadata(m, r.Metadata.Metadata))
 
-	for _, ext := range m.Extensions {
-		if ext, ok := spec.LoadValidator(ext.Namespace); ok {
-			errs = errors.Append(errs, ext.Validate(m, path, r))
-		}
+	for _, ext := range m.validators() {
+		errs = errors.Append(errs, ext.Validate(m, path, r))
 	}
 	return errs
 }
-- 
2.43.0

