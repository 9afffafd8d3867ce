From 9393810fd8a4dd142605ffdf057ce813e00d22dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:31 +0000
Subject: [PATCH 1/4] fix: give every logging context its own attributes

Attrs returned, and WithLogger kept, a slice sharing its backing array with
another context, so attributes added to one branch of a request could
overwrite those of another.
---
 grpc/federation/log/context.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/grpc/federation/log/context.go b/grpc/federation/log/context.go
index 32f00c9..8116c24 100644
--- a/grpc/federation/log/context.go
+++ b/grpc/federation/log/context.go
@@ -3,6 +3,7 @@ package log
 import (
 	"context"
 	"log/slog"
+	"slices"
 	"sync"
 )
 
@@ -17,7 +18,7 @@ type loggerRef struct {
 }
 
 func WithLogger(ctx context.Context, logger *slog.Logger, attrs ...slog.Attr) context.Context {
-	return context.WithValue(ctx, loggerKey{}, &loggerRef{logger: logger, attrs: attrs})
+	return context.WithValue(ctx, loggerKey{}, &loggerRef{logger: logger, attrs: slices.Clone(attrs)})
 }
 
 func Logger(ctx context.Context) *slog.Logger {
@@ -41,7 +42,7 @@ func Attrs(ctx context.Context) []slog.Attr {
 
 	ref.mu.RLock()
 	defer ref.mu.RUnlock()
-	return ref.attrs
+	return slices.Clone(ref.attrs)
 }
 
 // SetLogger set logger instance for current context.
-- 
2.43.0


From 5a93d951a7313b312c913a310abe08662fcd36b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:02 +0000
Subject: [PATCH 2/4] fix: apply the options of Compile to that call only

A Compiler is shared by the language server's concurrent requests, and
Compile kept the options of one call in it: a data race, and a call
that did not ask for manual imports inherited them from an earlier one.
---
 compiler/compiler.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/compiler/compiler.go b/compiler/compiler.go
index 3dc8091..1ae72bc 100644
--- a/compiler/compiler.go
+++ b/compiler/compiler.go
@@ -147,7 +147,8 @@ type dependentProtoFileSet struct {
 
 // Compile compile the target Protocol Buffers file and produces all file descriptors.
 func (c *Compiler) Compile(ctx context.Context, file *source.File, opts ...Option) ([]*descriptorpb.FileDescriptorProto, error) {
-	c.importPaths = []string{}
+	// The options apply to this call only: a Compiler is shared by concurrent callers.
+	c = New()
 
 	for _, opt := range opts {
 		opt(c)
-- 
2.43.0


From 94af97b066d5cb418373ac40bfc13848d052d101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:02 +0000
Subject: [PATCH 3/4] fix: do not append to a file descriptor's own dependency
 list

The dependency list of every derived descriptor shared the spare
capacity of the file's list, so that a later one overwrote an earlier.
---
 resolver/resolver.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resolver/resolver.go b/resolver/resolver.go
index d25fee1..35d4206 100644
--- a/resolver/resolver.go
+++ b/resolver/resolver.go
@@ -4905,7 +4905,7 @@ func messageArgumentFileDescriptor(arg *Message) *descriptorpb.FileDescriptorPro
 			importedTimeFile = true
 		}
 	}
-	deps := append(desc.GetDependency(), arg.File.Name)
+	deps := append(slices.Clone(desc.GetDependency()), arg.File.Name)
 	if !importedPrivateFile {
 		deps = append(deps, privateProtoFile)
 	}
@@ -4979,7 +4979,7 @@ func dynamicMsgFileDescriptor(srcMsg *Message, fileName string) *descriptorpb.Fi
 			importedDurationFile = true
 		}
 	}
-	deps := append(desc.GetDependency(), srcMsg.File.Name)
+	deps := append(slices.Clone(desc.GetDependency()), srcMsg.File.Name)
 	if !importedPrivateFile {
 		deps = append(deps, privateProtoFile)
 	}
-- 
2.43.0


From cb15956e6089ee1924a11155954f9b9c4164fa00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:22 +0000
Subject: [PATCH 4/4] fix: do not append to the attributes of a logged error

Logging one error from two calls at a time wrote to the same memory.
---
 grpc/federation/error.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/grpc/federation/error.go b/grpc/federation/error.go
index 466cbd8..7a9277f 100644
--- a/grpc/federation/error.go
+++ b/grpc/federation/error.go
@@ -6,6 +6,7 @@ import (
 	"fmt"
 	"log/slog"
 	"runtime/debug"
+	"slices"
 	"strings"
 
 	"golang.org/x/sync/errgroup"
@@ -78,7 +79,7 @@ func OutputErrorLog(ctx context.Context, err error) {
 	var errWithAttrs *ErrorWithLogAttrs
 	if errors.As(err, &errWithAttrs) {
 		logLevel = errWithAttrs.level
-		logArgs = errWithAttrs.attrs
+		logArgs = slices.Clone(errWithAttrs.attrs)
 	}
 	if status, ok := grpcstatus.FromError(err); ok {
 		logArgs = append(logArgs, slog.Group("grpc_status",
-- 
2.43.0

