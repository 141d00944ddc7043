From bdec7130a5624b7d2a9a75ec3d224c59116a238a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:15 +0000
Subject: [PATCH 01/34] fix: reject return, trace, sleep, mod, cons and fn
 calls with a wrong number of arguments

---
 CppLisp/CppLispInterpreter/Environment.cpp | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/CppLisp/CppLispInterpreter/Environment.cpp b/CppLisp/CppLispInterpreter/Environment.cpp
index 34854b6..ec29e0d 100644
--- a/CppLisp/CppLispInterpreter/Environment.cpp
+++ b/CppLisp/CppLispInterpreter/Environment.cpp
@@ -383,6 +383,8 @@ static std::shared_ptr<LispVariant> NeedLValue(const std::vector<std::shared_ptr
 
 static std::shared_ptr<LispVariant> TracePrint(const std::vector<std::shared_ptr<object>> & args, std::shared_ptr<LispScope> scope)
 {
+	CheckArgs("trace", 1, args, scope);
+
 	var status = args[0]->ToLispVariantRef();
 	(*scope)[Traceon] = std::make_shared<object>(status.BoolValue());
 	return std::make_shared<LispVariant>(std::make_shared<object>(status.BoolValue()));
@@ -431,8 +433,10 @@ static std::shared_ptr<LispVariant> CurrentTickCount(const std::vector<std::shar
 	return FuelFuncWrapper0<int>(args, scope, "tickcount", []() -> int { return (int)GetTickCount(); });
 }
 
-static std::shared_ptr<LispVariant> _Sleep(const std::vector<std::shared_ptr<object>> & args, std::shared_ptr<LispScope> /*scope*/)
+static std::shared_ptr<LispVariant> _Sleep(const std::vector<std::shared_ptr<object>> & args, std::shared_ptr<LispScope> scope)
 {
+	CheckArgs("sleep", 1, args, scope);
+
 	var timeInMs = ((LispVariant)args[0]).ToInt();
 	std::this_thread::sleep_for(std::chrono::milliseconds(timeInMs));
 	return std::make_shared<LispVariant>(LispVariant());
@@ -607,6 +611,8 @@ static std::shared_ptr<LispVariant> Nop(const std::vector<std::shared_ptr<object
 
 static std::shared_ptr<LispVariant> Return(const std::vector<std::shared_ptr<object>> & args, std::shared_ptr<LispScope> scope)
 {
+	CheckArgs("return", 1, args, scope);
+
 	scope->IsInReturn = true;
 	return std::make_shared<LispVariant>(LispVariant(args[0]));
 }
@@ -919,8 +925,10 @@ static std::shared_ptr<LispVariant> Division(const std::vector<std::shared_ptr<o
 	return ArithmetricOperation(args, [](std::shared_ptr<LispVariant> l, std::shared_ptr<LispVariant> r) -> std::shared_ptr<LispVariant> { return std::make_shared<LispVariant>(*l / *r); });
 }
 
-static std::shared_ptr<LispVariant> Modulo(const std::vector<std::shared_ptr<object>> & args, std::shared_ptr<LispScope> /*scope*/)
+static std::shared_ptr<LispVariant> Modulo(const std::vector<std::shared_ptr<object>> & args, std::shared_ptr<LispScope> scope)
 {
+	CheckArgs("mod", 2, args, scope);
+
 	return ArithmetricOperation(args, [](std::shared_ptr<LispVariant> l, std::shared_ptr<LispVariant> r) -> std::shared_ptr<LispVariant> { return std::make_shared<LispVariant>(*l % *r); });
 }
 
@@ -1040,8 +1048,10 @@ static std::shared_ptr<LispVariant> Reduce(const std::vector<std::shared_ptr<obj
 	return result;
 }
 
-static std::shared_ptr<LispVariant> Cons(const std::vector<std::shared_ptr<object>> & args, std::shared_ptr<LispScope> /*scope*/)
+static std::shared_ptr<LispVariant> Cons(const std::vector<std::shared_ptr<object>> & args, std::shared_ptr<LispScope> scope)
 {
+	CheckOptionalArgs("cons", 0, 2, args, scope);
+
 	var list = IEnumerable<std::shared_ptr<object>>();
 	if (args.size() > 0)
 	{
@@ -1780,6 +1790,8 @@ static IEnumerable<std::shared_ptr<object>> VectorToList(const std::vector<std::
 
 std::shared_ptr<LispVariant> fn_form(const std::vector<std::shared_ptr<object>> & args, std::shared_ptr<LispScope> scope)
 {
+	CheckArgs(Fn, 2, args, scope);
+
 	var name = /*(string)*/scope->UserData.get()!=null ? scope->UserData->ToString() : "";
 	var moduleName = scope->ModuleName;
 	var userDoc = scope->UserDoc;
@@ -2369,7 +2381,7 @@ std::shared_ptr<LispScope> LispEnvironment::CreateDefaultScope()
 	(*scope)["%"] = CreateFunction(Modulo, "(% expr1 expr2)", "see: mod");
 
 	(*scope)[">>"] = CreateFunction(RightShift, "(>> expr1 expr2)", "Integer right shift. Returns integer expression1 right shifted for expression2 binary digits.");
-	(*scope)["<<"] = CreateFunction(LeftShift, "(>> expr1 expr2)", "Integer left shift. Returns integer expression1 left shifted for expression2 binary digits.");
+	(*scope)["<<"] = CreateFunction(LeftShift, "(<< expr1 expr2)", "Integer left shift. Returns integer expression1 left shifted for expression2 binary digits.");
 	(*scope)["|"] = CreateFunction(BinaryOr, "(| expr1 expr2)", "Binary or for integer numbers (bitwise or).");
 	(*scope)["&"] = CreateFunction(BinaryAnd, "(& expr1 expr2)", "Binary and for integer numbers (bitwise and).");
 	(*scope)["^"] = CreateFunction(BinaryXOr, "(^ expr1 expr2)", "Binary xor for integer numbers (bitwise xor).");
@@ -2391,7 +2403,7 @@ std::shared_ptr<LispScope> LispEnvironment::CreateDefaultScope()
 	(*scope)["list"] = CreateFunction(CreateList, "(list item1 item2 ...)", "Returns a new list with the given elements.");
 	(*scope)[MapFcn] = CreateFunction(Map, "(map function list)", "Returns a new list with elements, where all elements of the list where applied to the function.");	
 	(*scope)[ReduceFcn] = CreateFunction(Reduce, "(reduce function list initial)", "Reduce function.");
-	(*scope)["cons"] = CreateFunction(Cons, "(cons item list)", "Returns a new list containing the item and the elements of the list.");
+	(*scope)["cons"] = CreateFunction(Cons, "(cons [item] [list])", "Returns a new list containing the item and the elements of the list.");
 	(*scope)["len"] = CreateFunction(Length, "(len list)", "Returns the length of the list.");
 	(*scope)["first"] = CreateFunction(First, "(first list)", "see: car");
 	(*scope)["last"] = CreateFunction(Last, "(last list)", "Returns the last element of the list.");
-- 
2.43.0


From 9355f9598ece82e4274ad4ed81b035ccea2f4c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:38 +0000
Subject: [PATCH 02/34] fix: apply passes a private copy of the argument list

---
 CppLisp/CppLispInterpreter/Environment.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CppLisp/CppLispInterpreter/Environment.cpp b/CppLisp/CppLispInterpreter/Environment.cpp
index ec29e0d..56e3c64 100644
--- a/CppLisp/CppLispInterpreter/Environment.cpp
+++ b/CppLisp/CppLispInterpreter/Environment.cpp
@@ -1351,7 +1351,7 @@ static std::shared_ptr<LispVariant> ApplyFcn(const std::vector<std::shared_ptr<o
 
 	if (arguments.IsList())
 	{
-		const IEnumerable<std::shared_ptr<object>> & argumentsArray = arguments.ListValueRef();
+		const IEnumerable<std::shared_ptr<object>> argumentsArray = arguments.ListValueRef();   // copy: the called function may modify the list
 		var result = fcn->FunctionValue().Function(argumentsArray, scope);
 		return result;
 	}
-- 
2.43.0


From 30d544a4bb05752931ca2355bb7c5ce5e322d7ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:17 +0000
Subject: [PATCH 03/34] fix: argument errors of quote, dict-clear, File-Exists,
 Math-Truncate and the bit operators name the called function

---
 CppLisp/CppLispInterpreter/Environment.cpp | 28 +++++++++++-----------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/CppLisp/CppLispInterpreter/Environment.cpp b/CppLisp/CppLispInterpreter/Environment.cpp
index 56e3c64..11ed36a 100644
--- a/CppLisp/CppLispInterpreter/Environment.cpp
+++ b/CppLisp/CppLispInterpreter/Environment.cpp
@@ -939,32 +939,32 @@ static std::shared_ptr<LispVariant> Not(const std::vector<std::shared_ptr<object
 
 static std::shared_ptr<LispVariant> LeftShift(const std::vector<std::shared_ptr<object>>& args, std::shared_ptr<LispScope> scope)
 {
-	return FuelFuncWrapper2<LispVariant, LispVariant, LispVariant>(args, scope, "lef-shift", [](const LispVariant & arg1, const LispVariant & arg2) -> LispVariant { return LispVariant(LispType::_Int, std::make_shared<object>(arg1.IntValue() << arg2.IntValue())); });
+	return FuelFuncWrapper2<LispVariant, LispVariant, LispVariant>(args, scope, "<<", [](const LispVariant & arg1, const LispVariant & arg2) -> LispVariant { return LispVariant(LispType::_Int, std::make_shared<object>(arg1.IntValue() << arg2.IntValue())); });
 }
 
 static std::shared_ptr<LispVariant> RightShift(const std::vector<std::shared_ptr<object>>& args, std::shared_ptr<LispScope> scope)
 {
-	return FuelFuncWrapper2<LispVariant, LispVariant, LispVariant>(args, scope, "right-shift", [](const LispVariant& arg1, const LispVariant& arg2) -> LispVariant { return LispVariant(LispType::_Int, std::make_shared<object>(arg1.IntValue() >> arg2.IntValue())); });
+	return FuelFuncWrapper2<LispVariant, LispVariant, LispVariant>(args, scope, ">>", [](const LispVariant& arg1, const LispVariant& arg2) -> LispVariant { return LispVariant(LispType::_Int, std::make_shared<object>(arg1.IntValue() >> arg2.IntValue())); });
 }
 
 static std::shared_ptr<LispVariant> BinaryOr(const std::vector<std::shared_ptr<object>>& args, std::shared_ptr<LispScope> scope)
 {
-	return FuelFuncWrapper2<LispVariant, LispVariant, LispVariant>(args, scope, "lef-shift", [](const LispVariant& arg1, const LispVariant& arg2) -> LispVariant { return LispVariant(LispType::_Int, std::make_shared<object>(arg1.IntValue() | arg2.IntValue())); });
+	return FuelFuncWrapper2<LispVariant, LispVariant, LispVariant>(args, scope, "|", [](const LispVariant& arg1, const LispVariant& arg2) -> LispVariant { return LispVariant(LispType::_Int, std::make_shared<object>(arg1.IntValue() | arg2.IntValue())); });
 }
 
 static std::shared_ptr<LispVariant> BinaryAnd(const std::vector<std::shared_ptr<object>>& args, std::shared_ptr<LispScope> scope)
 {
-	return FuelFuncWrapper2<LispVariant, LispVariant, LispVariant>(args, scope, "lef-shift", [](const LispVariant& arg1, const LispVariant& arg2) -> LispVariant { return LispVariant(LispType::_Int, std::make_shared<object>(arg1.IntValue() & arg2.IntValue())); });
+	return FuelFuncWrapper2<LispVariant, LispVariant, LispVariant>(args, scope, "&", [](const LispVariant& arg1, const LispVariant& arg2) -> LispVariant { return LispVariant(LispType::_Int, std::make_shared<object>(arg1.IntValue() & arg2.IntValue())); });
 }
 
 static std::shared_ptr<LispVariant> BinaryXOr(const std::vector<std::shared_ptr<object>>& args, std::shared_ptr<LispScope> scope)
 {
-	return FuelFuncWrapper2<LispVariant, LispVariant, LispVariant>(args, scope, "lef-shift", [](const LispVariant& arg1, const LispVariant& arg2) -> LispVariant { return LispVariant(LispType::_Int, std::make_shared<object>(arg1.IntValue() ^ arg2.IntValue())); });
+	return FuelFuncWrapper2<LispVariant, LispVariant, LispVariant>(args, scope, "^", [](const LispVariant& arg1, const LispVariant& arg2) -> LispVariant { return LispVariant(LispType::_Int, std::make_shared<object>(arg1.IntValue() ^ arg2.IntValue())); });
 }
 
 static std::shared_ptr<LispVariant> BinaryNot(const std::vector<std::shared_ptr<object>>& args, std::shared_ptr<LispScope> scope)
 {
-	return FuelFuncWrapper1<LispVariant, LispVariant>(args, scope, "binary-not", [](const LispVariant& arg1) -> LispVariant { return LispVariant(LispType::_Int, std::make_shared<object>(~arg1.IntValue())); });
+	return FuelFuncWrapper1<LispVariant, LispVariant>(args, scope, "~", [](const LispVariant& arg1) -> LispVariant { return LispVariant(LispType::_Int, std::make_shared<object>(~arg1.IntValue())); });
 }
 
 static std::shared_ptr<LispVariant> LessTest(const std::vector<std::shared_ptr<object>> & args, std::shared_ptr<LispScope> scope)
@@ -1449,7 +1449,7 @@ static std::shared_ptr<LispVariant> DictKeys(const std::vector<std::shared_ptr<o
 
 static std::shared_ptr<LispVariant> DictClear(const std::vector<std::shared_ptr<object>> & args, std::shared_ptr<LispScope> scope)
 {
-	CheckArgs("dict-clean", 1, args, scope);
+	CheckArgs("dict-clear", 1, args, scope);
 
 	Dictionary<LispVariant, std::shared_ptr<object>> &  dict = args[0]->ToLispVariantRef().Value->ToDictionary();
 	dict.Clear();
@@ -1587,7 +1587,7 @@ static std::shared_ptr<LispVariant> definemacroexpand_form(const std::vector<std
 
 static std::shared_ptr<LispVariant> quote_form(const std::vector<std::shared_ptr<object>> & args, std::shared_ptr<LispScope> scope)
 {
-	CheckArgs(Quote, 1, args, scope);
+	CheckArgs(LispEnvironment::Quote, 1, args, scope);
 
 	return std::make_shared<LispVariant>(std::make_shared<object>(*(args[0])));
 }
@@ -1642,14 +1642,14 @@ std::shared_ptr<object> UnQuoteIfNeeded(std::shared_ptr<object> item, bool & isS
 
 std::shared_ptr<LispVariant> unquote_form(const std::vector<std::shared_ptr<object>> & args, std::shared_ptr<LispScope> scope)
 {
-	CheckArgs(UnQuote, 1, args, scope);
+	CheckArgs(LispEnvironment::UnQuote, 1, args, scope);
 
 	return std::make_shared<LispVariant>(args[0]);
 }
 
 std::shared_ptr<LispVariant> unquotesplicing_form(const std::vector<std::shared_ptr<object>> & args, std::shared_ptr<LispScope> scope)
 {
-	CheckArgs(UnQuoteSplicing, 1, args, scope);
+	CheckArgs(LispEnvironment::UnQuoteSplicing, 1, args, scope);
 
 	return std::make_shared<LispVariant>(args[0]);
 }
@@ -2160,7 +2160,7 @@ static std::shared_ptr<object> QueryItem(std::shared_ptr<object> funcName, LispS
 
 std::shared_ptr<LispVariant> FileExits(const std::vector<std::shared_ptr<object>> & args, std::shared_ptr<LispScope> scope)
 {
-	CheckArgs("File-Exits", 1, args, scope);
+	CheckArgs("File-Exists", 1, args, scope);
 
 	var fileName = args[0]->ToLispVariantRef().ToString();
 	return std::make_shared<LispVariant>(std::make_shared<object>(File_Exists(fileName)));
@@ -2270,7 +2270,7 @@ std::shared_ptr<LispVariant> Math_round(const std::vector<std::shared_ptr<object
 
 std::shared_ptr<LispVariant> Math_truncate(const std::vector<std::shared_ptr<object>> & args, std::shared_ptr<LispScope> scope)
 {
-	return Math_function("Math-Truncated", [](double x) { return trunc(x); }, args, scope);
+	return Math_function("Math-Truncate", [](double x) { return trunc(x); }, args, scope);
 }
 
 std::shared_ptr<LispVariant> Math_abs(const std::vector<std::shared_ptr<object>> & args, std::shared_ptr<LispScope> scope)
@@ -2460,8 +2460,8 @@ std::shared_ptr<LispScope> LispEnvironment::CreateDefaultScope()
 
 	(*scope)[Quote] = CreateFunction(quote_form, "(quote expr)", "Returns expression without evaluating it.", /*isBuiltin:*/true, /*isSpecialForm:*/ true);
 	(*scope)[Quasiquote] = CreateFunction(quasiquote_form, "(quasiquote expr)", "Returns expression without evaluating it, but processes evaluation operators , and ,@.", /*isBuiltin:*/true, /*isSpecialForm:*/ true);
-	(*scope)[UnQuote] = CreateFunction(unquote_form, "(unquote expr)", "Special form for unquoting expressions in quasiquote functions.", /*isBuiltin:*/true, /*isSpecialForm:*/ true);
-	(*scope)[UnQuoteSplicing] = CreateFunction(unquotesplicing_form, "(unquotesplicing expr)", "Special form for unquotingsplicing expressions in quasiquote functions.", /*isBuiltin:*/true, /*isSpecialForm:*/ true);
+	(*scope)[UnQuote] = CreateFunction(unquote_form, "(_unquote expr)", "Special form for unquoting expressions in quasiquote functions.", /*isBuiltin:*/true, /*isSpecialForm:*/ true);
+	(*scope)[UnQuoteSplicing] = CreateFunction(unquotesplicing_form, "(_unquotesplicing expr)", "Special form for unquotingsplicing expressions in quasiquote functions.", /*isBuiltin:*/true, /*isSpecialForm:*/ true);
 	(*scope)[If] = CreateFunction(if_form, "(if cond then-block [else-block])", "The if statement.", /*isBuiltin:*/true, /*isSpecialForm:*/ true);
 	(*scope)[While] = CreateFunction(while_form, "(while cond block)", "The while loop.", /*isBuiltin:*/true, /*isSpecialForm:*/ true);
 	(*scope)[Do] = CreateFunction(do_form, "(do statement1 statement2 ...)", "Returns a sequence of statements.", /*isBuiltin:*/true, /*isSpecialForm:*/ true);
-- 
2.43.0


From 1c250e1a90039ce52a0a03809e83e68d56b8f09b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:05 +0000
Subject: [PATCH 04/34] fix: initialise the tracing flag of a scope and the
 library path without help of another unit

---
 CppLisp/CppLispInterpreter/Environment.cpp | 2 +-
 CppLisp/CppLispInterpreter/Scope.cpp       | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/CppLisp/CppLispInterpreter/Environment.cpp b/CppLisp/CppLispInterpreter/Environment.cpp
index 11ed36a..0f2ebe1 100644
--- a/CppLisp/CppLispInterpreter/Environment.cpp
+++ b/CppLisp/CppLispInterpreter/Environment.cpp
@@ -96,7 +96,7 @@ const string LispEnvironment::Str = "str";
 
 namespace CppLisp
 {
-	string LispUtils_LibraryPath = string::Empty;
+	string LispUtils_LibraryPath;
 }
 
 static bool File_Exists(const string & fileName)
diff --git a/CppLisp/CppLispInterpreter/Scope.cpp b/CppLisp/CppLispInterpreter/Scope.cpp
index 6935321..1c8f21a 100644
--- a/CppLisp/CppLispInterpreter/Scope.cpp
+++ b/CppLisp/CppLispInterpreter/Scope.cpp
@@ -34,6 +34,7 @@ namespace CppLisp
 		Debugger = null;
 		IsInEval = false;
 		IsInReturn = false;
+		Tracing = false;
 		NeedsLValue = false;
 		Name = fcnName;
 		ModuleName = moduleName ? *moduleName : string::Empty;
-- 
2.43.0


From 6a1476d05f27ad2acc15b71d798b6441c773ca24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:37 +0000
Subject: [PATCH 05/34] fix: delete debuggers through a virtual destructor and
 release the one made by the interactive loop

---
 CppLisp/CppLispDebugger/Debugger.cpp           | 4 +++-
 CppLisp/CppLispInterpreter/DebuggerInterface.h | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/CppLisp/CppLispDebugger/Debugger.cpp b/CppLisp/CppLispDebugger/Debugger.cpp
index 01deeef..99b5b20 100644
--- a/CppLisp/CppLispDebugger/Debugger.cpp
+++ b/CppLisp/CppLispDebugger/Debugger.cpp
@@ -61,9 +61,11 @@ namespace CppLisp
 		string interactiveScript;
 
 		startedFromMain = startedFromMain || debugger == null;
+		std::unique_ptr<LispDebugger> ownDebugger;
 		if (debugger == null)
 		{
-			debugger = new LispDebugger();
+			ownDebugger.reset(new LispDebugger());
+			debugger = ownDebugger.get();
 		}
 		var globalScope = initialTopScope != null ? initialTopScope->GlobalScope : LispEnvironment::CreateDefaultScope();
 		// do not switch off tracing if already enabled
diff --git a/CppLisp/CppLispInterpreter/DebuggerInterface.h b/CppLisp/CppLispInterpreter/DebuggerInterface.h
index 42392c9..631d190 100644
--- a/CppLisp/CppLispInterpreter/DebuggerInterface.h
+++ b/CppLisp/CppLispInterpreter/DebuggerInterface.h
@@ -45,7 +45,7 @@ namespace CppLisp
 		/// <summary>
 		/// The destructor.
 		/// </summary>
-		//virtual ~ILispDebugger();
+		virtual ~ILispDebugger() {}
 
         /// <summary>
         /// Enters the interactive loop.
-- 
2.43.0


From e8b4051830769f7dcf8f913246c0cc2e1c92f62a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:20 +0000
Subject: [PATCH 06/34] fix: nil and other values without list storage can not
 be modified through a shared empty list

---
 CppLisp/CppLispInterpreter/Environment.cpp | 8 ++++++++
 CppLisp/CppLispInterpreter/Variant.cpp     | 6 +++---
 CppLisp/CppLispInterpreter/csobject.cpp    | 6 +++---
 3 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/CppLisp/CppLispInterpreter/Environment.cpp b/CppLisp/CppLispInterpreter/Environment.cpp
index 0f2ebe1..1824ffa 100644
--- a/CppLisp/CppLispInterpreter/Environment.cpp
+++ b/CppLisp/CppLispInterpreter/Environment.cpp
@@ -1208,6 +1208,10 @@ static std::shared_ptr<LispVariant> Push(const std::vector<std::shared_ptr<objec
 	const LispVariant & val = args[0]->ToLispVariantRef();
 	LispVariant & list = args[1]->ToLispVariantNotConstRef();
 	var pos = args.size() > 2 ? args[2]->ToLispVariantRef().ToInt() : 0;
+	if (list.IsNil())
+	{
+		return std::make_shared<LispVariant>(LispVariant(LispType::_Nil));
+	}
 	if (list.IsList())
 	{
 		IEnumerable<std::shared_ptr<object>> & elements = list.ListValueNotConstRef();
@@ -1230,6 +1234,10 @@ static std::shared_ptr<LispVariant> Pop(const std::vector<std::shared_ptr<object
 
 	LispVariant & list = args[0]->ToLispVariantNotConstRef();
 	var pos = args.size() > 1 ? args[1]->ToLispVariantRef().ToInt() : 0;
+	if (list.IsNil())
+	{
+		return std::make_shared<LispVariant>(LispVariant(LispType::_Nil));
+	}
 	if (list.IsList())
 	{
 		IEnumerable<std::shared_ptr<object>> & elements = list.ListValueNotConstRef();
diff --git a/CppLisp/CppLispInterpreter/Variant.cpp b/CppLisp/CppLispInterpreter/Variant.cpp
index be6ea42..c5e89e3 100644
--- a/CppLisp/CppLispInterpreter/Variant.cpp
+++ b/CppLisp/CppLispInterpreter/Variant.cpp
@@ -606,7 +606,7 @@ namespace CppLisp
 		//}
 	}
 
-	IEnumerable<std::shared_ptr<object>> g_Empty;
+	static const IEnumerable<std::shared_ptr<object>> g_Empty = IEnumerable<std::shared_ptr<object>>();
 
 	const IEnumerable<std::shared_ptr<object>> & LispVariant::ListValueRef() const
 	{
@@ -633,10 +633,10 @@ namespace CppLisp
 	{
 		//get
 		//{
-			// Nil is an empty list () !
+			// Nil is an empty list (), which has no elements to change !
 		if (Type == LispType::_Nil)
 		{
-			return g_Empty;
+			throw CreateInvalidCastException("list");
 		}
 		//if (IsNativeObject() && NativeObjectValue()->IsIEnumerableOfObject())
 		//{
diff --git a/CppLisp/CppLispInterpreter/csobject.cpp b/CppLisp/CppLispInterpreter/csobject.cpp
index 45d3e88..a78a201 100644
--- a/CppLisp/CppLispInterpreter/csobject.cpp
+++ b/CppLisp/CppLispInterpreter/csobject.cpp
@@ -410,7 +410,7 @@ namespace CppLisp
 		return std::make_shared<LispVariant>(LispVariant(LispType::_Nil));
 	}
 
-	LispVariant g_Nil(LispType::_Nil);
+	static const LispVariant g_Nil(LispType::_Nil);
 
 	const LispVariant & object::ToLispVariantRef() const
 	{
@@ -429,7 +429,7 @@ namespace CppLisp
 			// return a reference
 			return *(m_Data.pVariant);
 		}
-		return g_Nil;
+		throw LispExceptionBase("Can not modify a value of type " + GetTypeName());
 	}
 
 	LispScope * object::GetLispScopeRef() const
@@ -441,7 +441,7 @@ namespace CppLisp
 		return null;
 	}
 
-	IEnumerable<std::shared_ptr<object>> g_EmptyList;
+	static const IEnumerable<std::shared_ptr<object>> g_EmptyList = IEnumerable<std::shared_ptr<object>>();
 
 	const IEnumerable<std::shared_ptr<object>> & object::ToListRef() const
 	{
-- 
2.43.0


From b49d14dc77bf0b77facce2c58b264bffc0c03bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:28 +0000
Subject: [PATCH 07/34] fix: a value is never read as a kind it does not have
 (dict functions with a non dictionary, bool, int and double conversions)

---
 CppLisp/CppLispInterpreter/csobject.cpp | 12 ++++++++++++
 CppLisp/CppLispInterpreter/csobject.h   |  6 ++++++
 2 files changed, 18 insertions(+)

diff --git a/CppLisp/CppLispInterpreter/csobject.cpp b/CppLisp/CppLispInterpreter/csobject.cpp
index a78a201..e7a0701 100644
--- a/CppLisp/CppLispInterpreter/csobject.cpp
+++ b/CppLisp/CppLispInterpreter/csobject.cpp
@@ -380,13 +380,23 @@ namespace CppLisp
 		}
 	}
 
+	void object::CheckType(ObjectType type) const
+	{
+		if (m_Type != type)
+		{
+			throw LispExceptionBase("Invalid cast for value of type " + GetTypeName());
+		}
+	}
+
 	Dictionary<LispVariant, std::shared_ptr<object>> & object::ToDictionary()
 	{
+		CheckType(ObjectType::__Dictionary);
 		return *(m_Data.pDictionary);
 	}
 
 	const Dictionary<LispVariant, std::shared_ptr<object>> & object::ToDictionary() const
 	{
+		CheckType(ObjectType::__Dictionary);
 		return *(m_Data.pDictionary);
 	}
 
@@ -505,11 +515,13 @@ namespace CppLisp
 
 	const IEnumerable<std::shared_ptr<object>> & object::ToEnumerableOfObjectRef() const
 	{
+		CheckType(ObjectType::__List);
 		return *(m_Data.pList); // IEnumerable<std::shared_ptr<object>>(*(m_Data.pList));
 	}
 
 	IEnumerable<std::shared_ptr<object>> & object::ToEnumerableOfObjectNotConstRef()
 	{
+		CheckType(ObjectType::__List);
 		return *(m_Data.pList); // IEnumerable<std::shared_ptr<object>>(*(m_Data.pList));
 	}
 
diff --git a/CppLisp/CppLispInterpreter/csobject.h b/CppLisp/CppLispInterpreter/csobject.h
index 341dc85..ef88ab0 100644
--- a/CppLisp/CppLispInterpreter/csobject.h
+++ b/CppLisp/CppLispInterpreter/csobject.h
@@ -128,6 +128,9 @@ namespace CppLisp
 
 		void CleanUpMemory();
 
+		// throws an exception if the value is not of the given type
+		void CheckType(ObjectType type) const;
+
 		// disable assignment operator
 		object & operator=(const object & other);
 
@@ -211,16 +214,19 @@ namespace CppLisp
 */
 		inline operator bool() const
 		{
+			CheckType(ObjectType::__Bool);
 			return m_Data.b;
 		}
 
 		inline operator int() const
 		{
+			CheckType(ObjectType::__Int);
 			return m_Data.i;
 		}
 
 		inline operator double() const
 		{
+			CheckType(ObjectType::__Double);
 			return m_Data.d;
 		}
 
-- 
2.43.0


From 9b20a0b0891fbc670df1f04536ea7e618c33250b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:39 +0000
Subject: [PATCH 08/34] fix: errors raised inside functions keep their data and
 every script error is reported

---
 CppLisp/CppLispInterpreter/Environment.cpp | 6 +++---
 CppLisp/CppLispInterpreter/Lisp.cpp        | 6 ++++++
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/CppLisp/CppLispInterpreter/Environment.cpp b/CppLisp/CppLispInterpreter/Environment.cpp
index 1824ffa..29db958 100644
--- a/CppLisp/CppLispInterpreter/Environment.cpp
+++ b/CppLisp/CppLispInterpreter/Environment.cpp
@@ -1869,10 +1869,10 @@ std::shared_ptr<LispVariant> fn_form(const std::vector<std::shared_ptr<object>>
 		{
 			ret = LispInterpreter:: EvalAst(args[1], childScope);
 		}
-		catch (LispStopDebuggerException & exc)
+		catch (LispStopDebuggerException &)
 		{
 			// forward a debugger stop exception to stop the debugger loop
-			throw exc;
+			throw;
 		}
 		catch (LispExceptionBase & ex)
 		{
@@ -1889,7 +1889,7 @@ std::shared_ptr<LispVariant> fn_form(const std::vector<std::shared_ptr<object>>
 				debugger->InteractiveLoop(/*initialTopScope: */childScope, /*currentAst :*/ /*(IEnumerable<object>)*/std::make_shared<IEnumerable<std::shared_ptr<object>>>(args[1]->ToEnumerableOfObjectRef()) /*new List<object> { info.Item2 }*/);
 			}
 
-			throw ex;
+			throw;
 		}
 		localScope->PopNextScope();
 		return ret;
diff --git a/CppLisp/CppLispInterpreter/Lisp.cpp b/CppLisp/CppLispInterpreter/Lisp.cpp
index 0b67c2a..34b8bbf 100644
--- a/CppLisp/CppLispInterpreter/Lisp.cpp
+++ b/CppLisp/CppLispInterpreter/Lisp.cpp
@@ -179,6 +179,12 @@ namespace CppLisp
 		}
 		catch (LispExceptionBase exc)
 		{
+			string errMsg = string::Format("\nError executing script.\n\n{0}", exc.Message);
+			std::cout << errMsg << std::endl;
+			if (outp != null)
+			{
+				outp->WriteLine(errMsg);
+			}
 			result = LispVariant::CreateErrorValue(exc.Message);
 		}
 		return result;
-- 
2.43.0


From ede62dc264ca48d60f0ba578cd4ff069d8704dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:05 +0000
Subject: [PATCH 09/34] fix: every kind of value has a type name

---
 CppLisp/CppLispInterpreter/csobject.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/CppLisp/CppLispInterpreter/csobject.cpp b/CppLisp/CppLispInterpreter/csobject.cpp
index e7a0701..9eba82e 100644
--- a/CppLisp/CppLispInterpreter/csobject.cpp
+++ b/CppLisp/CppLispInterpreter/csobject.cpp
@@ -312,6 +312,14 @@ namespace CppLisp
 				return "VoidPtr";
 			case __LispScope:
 				return "LispScope";
+			case __LValue:
+				return "LValue";
+			case __Dictionary:
+				return "Dictionary";
+			case __LispMacroRuntimeEvaluate:
+				return "LispMacroRuntimeEvaluate";
+			case __LispMacroCompileTimeExpand:
+				return "LispMacroCompileTimeExpand";
 			case __Error:
 				return "Error";
 			default:
-- 
2.43.0


From fb91c93f908e0fe74cf1051951a5025e1b8caecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:06 +0000
Subject: [PATCH 10/34] fix: the text of a value is never taken for a format,
 and unreadable numbers and formats do not end the process

---
 CppLisp/CppLispInterpreter/Token.cpp    |   8 ++
 CppLisp/CppLispInterpreter/csstring.cpp | 128 +++++++-----------------
 CppLisp/CppLispInterpreter/csstring.h   |   2 -
 3 files changed, 43 insertions(+), 95 deletions(-)

diff --git a/CppLisp/CppLispInterpreter/Token.cpp b/CppLisp/CppLispInterpreter/Token.cpp
index be1e978..7d521bd 100644
--- a/CppLisp/CppLispInterpreter/Token.cpp
+++ b/CppLisp/CppLispInterpreter/Token.cpp
@@ -54,6 +54,10 @@ namespace CppLisp
 		{
 			return false;
 		}
+		catch (const std::out_of_range &)
+		{
+			return false;
+		}
 	}
 
 	bool Double_TryParse(const string & txt, const string & /*NumberStyles_Any*/, const string & /*CultureInfo_InvariantCulture*/, double & doubleValue)
@@ -72,6 +76,10 @@ namespace CppLisp
 		{
 			return false;
 		}
+		catch (const std::out_of_range &)
+		{
+			return false;
+		}
 	}
 
 	LispToken::LispToken(const string & text, size_t start, size_t stop, size_t lineNo)
diff --git a/CppLisp/CppLispInterpreter/csstring.cpp b/CppLisp/CppLispInterpreter/csstring.cpp
index 981637b..1bd298f 100644
--- a/CppLisp/CppLispInterpreter/csstring.cpp
+++ b/CppLisp/CppLispInterpreter/csstring.cpp
@@ -115,107 +115,49 @@ namespace CppLisp
 		return txt.size() == 0;
 	}
 
-	string string::ReplaceIn(const string & temp, const string & findText, const string & arg, bool & found)
+	string string::Format(const string & txt, const string & arg1, const string & arg2, const string & arg3, const string & arg4, const string & arg5)
 	{
-		auto pos = temp.find(findText);
-		string ret = temp;
-		if (pos != std::string::npos)
-		{
-			ret = ret.replace(pos, findText.size(), arg);
-			found = true;
-		}
-		else
+		const long MAX_WIDTH = 1000000;
+		const string * args[] = { &arg1, &arg2, &arg3, &arg4, &arg5 };
+		string result;
+		size_t pos = 0;
+		while (pos < txt.size())
 		{
-			found = false;
-		}
-		return ret;
-	}
+			// place holders are {n} or {n,width}, they are only searched in the format string and never in the arguments
+			size_t stop = std::string::npos;
+			if (txt[pos] == '{' && pos + 2 < txt.size() && txt[pos + 1] >= '0' && txt[pos + 1] <= '4' && (txt[pos + 2] == '}' || txt[pos + 2] == ','))
+			{
+				stop = txt.find("}", pos + 2);
+			}
+			if (stop == std::string::npos)
+			{
+				result += txt[pos];
+				pos++;
+				continue;
+			}
 
-	string string::ReplaceInWithFill(const string & temp, const string & findText, const string & arg, bool & found)
-	{
-		found = false;
-		string ret = temp;
-		auto pos = ret.find(findText);
-		if (pos != std::string::npos)
-		{
-			auto pos2 = ret.find("}", pos + 1);
-			if (pos2 != std::string::npos)
+			const string & arg = *(args[txt[pos + 1] - '0']);
+			if (arg == NULL_STRING)
 			{
-				string len = ret.substr(pos + 3, pos2 - pos - findText.size());
-				int l = std::stoi(len);
-				if (l > 0)
-				{
-					int count = l - (int)arg.size();
-					ret = ret.replace(pos, pos2 - pos + 1, std::string(count > 0 ? count : 0, ' ') + arg);
-					found = true;
-				}
-				else
+				throw LispExceptionBase("Not enough items for format string: " + txt);
+			}
+			long width = 0;
+			if (stop > pos + 2)
+			{
+				string widthTxt = txt.substr(pos + 3, stop - pos - 3);
+				char * end = 0;
+				width = strtol(widthTxt.c_str(), &end, 10);
+				if (widthTxt.size() == 0 || *end != 0 || width > MAX_WIDTH || width < -MAX_WIDTH)
 				{
-					int count = abs(l) - (int)arg.size();
-					ret = ret.replace(pos, pos2 - pos + 1, arg + std::string(count > 0 ? count : 0, ' '));
-					found = true;
+					throw LispExceptionBase("Invalid format string: " + txt);
 				}
 			}
+			size_t minSize = (size_t)(width > 0 ? width : -width);
+			string fill = std::string(minSize > arg.size() ? minSize - arg.size() : 0, ' ');
+			result += width > 0 ? fill + arg : arg + fill;
+			pos = stop + 1;
 		}
-		return ret;
-	}
-
-	string string::Format(const string & txt, const string & arg1, const string & arg2, const string & arg3, const string & arg4, const string & arg5)
-	{
-		const string ERR_MSG = "Not enough items for format string: " + txt;
-		bool found;
-		string temp = txt;
-		temp = ReplaceIn(temp, "{0}", arg1, found);
-		if (found && arg1 == NULL_STRING)
-		{
-			throw LispExceptionBase(ERR_MSG);
-		}
-		temp = ReplaceInWithFill(temp, "{0,", arg1, found);
-		if (found && arg1 == NULL_STRING)
-		{
-			throw LispExceptionBase(ERR_MSG);
-		}
-		temp = ReplaceIn(temp, "{1}", arg2, found);
-		if (found && arg2 == NULL_STRING)
-		{
-			throw LispExceptionBase(ERR_MSG);
-		}
-		temp = ReplaceInWithFill(temp, "{1,", arg2, found);
-		if (found && arg2 == NULL_STRING)
-		{
-			throw LispExceptionBase(ERR_MSG);
-		}
-		temp = ReplaceIn(temp, "{2}", arg3, found);
-		if (found && arg3 == NULL_STRING)
-		{
-			throw LispExceptionBase(ERR_MSG);
-		}
-		temp = ReplaceInWithFill(temp, "{2,", arg3, found);
-		if (found && arg3 == NULL_STRING)
-		{
-			throw LispExceptionBase(ERR_MSG);
-		}
-		temp = ReplaceIn(temp, "{3}", arg4, found);
-		if (found && arg4 == NULL_STRING)
-		{
-			throw LispExceptionBase(ERR_MSG);
-		}
-		temp = ReplaceInWithFill(temp, "{3,", arg4, found);
-		if (found && arg4 == NULL_STRING)
-		{
-			throw LispExceptionBase(ERR_MSG);
-		}
-		temp = ReplaceIn(temp, "{4}", arg5, found);
-		if (found && arg5 == NULL_STRING)
-		{
-			throw LispExceptionBase(ERR_MSG);
-		}
-		temp = ReplaceInWithFill(temp, "{4,", arg5, found);
-		if (found && arg5 == NULL_STRING)
-		{
-			throw LispExceptionBase(ERR_MSG);
-		}
-		return temp;
+		return result;
 	}
 
     int string::CompareOrdinal(const string & a, const string & b)
diff --git a/CppLisp/CppLispInterpreter/csstring.h b/CppLisp/CppLispInterpreter/csstring.h
index 88499c9..2545b73 100644
--- a/CppLisp/CppLispInterpreter/csstring.h
+++ b/CppLisp/CppLispInterpreter/csstring.h
@@ -185,8 +185,6 @@ namespace CppLisp
 		std::vector<string> Split(const string & seperator) const;
 
 		static bool IsNullOrEmpty(const string & txt);
-		static string ReplaceIn(const string & temp, const string & findText, const string & arg, bool & found);
-		static string ReplaceInWithFill(const string & temp, const string & findText, const string & arg, bool & found);
 		static string Format(const string & txt, const string & arg1 = NULL_STRING, const string & arg2 = NULL_STRING, const string & arg3 = NULL_STRING, const string & arg4 = NULL_STRING, const string & arg5 = NULL_STRING);
 		static int CompareOrdinal(const string & a, const string & b);
 
-- 
2.43.0


From 7ca5a219bf567607ec195e42ef641333d0c1d5b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:27 +0000
Subject: [PATCH 11/34] fix: the debugger is released before its library is
 unloaded

---
 CppLisp/CppLispInterpreter/fuel.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/CppLisp/CppLispInterpreter/fuel.cpp b/CppLisp/CppLispInterpreter/fuel.cpp
index 9baa8c8..36e0210 100644
--- a/CppLisp/CppLispInterpreter/fuel.cpp
+++ b/CppLisp/CppLispInterpreter/fuel.cpp
@@ -351,6 +351,10 @@ namespace CppLisp
 			output->WriteLine("Execution time = {0} s", std::to_string((/*Environment.TickCount*/Environment_GetTickCount() - startTickCount) * 0.001));
 		}
 
+#ifndef _DISABLE_DEBUGGER
+		// the code of the debugger is gone after the library is unloaded
+		debugger = null;
+#endif
 		DisconnectDebugger();
 	}
 
-- 
2.43.0


From 047e3498c125f2609c9433ac9a559e75d5f1be21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:47 +0000
Subject: [PATCH 12/34] fix: the debugger does not wait forever for an answer
 at the end of the input

---
 CppLisp/CppLispDebugger/Debugger.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CppLisp/CppLispDebugger/Debugger.cpp b/CppLisp/CppLispDebugger/Debugger.cpp
index 99b5b20..9cf158b 100644
--- a/CppLisp/CppLispDebugger/Debugger.cpp
+++ b/CppLisp/CppLispDebugger/Debugger.cpp
@@ -501,7 +501,7 @@ namespace CppLisp
 					{
 						answer = answer.ToUpper();
 					}
-				} while (!(answer == "Y" || answer == "N" || answer == "YES" || answer == "NO"));
+				} while (!(answer == "Y" || answer == "N" || answer == "YES" || answer == "NO" || string::IsNullOrEmpty(answer)));
 				if (answer == "Y" || answer == "YES")
 				{
 					debugger->ClearAllBreakpoints();
-- 
2.43.0


From 06e1c4f5cacf9f5f5588a03bf772bc2bdfefcc86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:46 +0000
Subject: [PATCH 13/34] fix: lists are not accessed beyond their elements or
 while a script changes them, and unbalanced or nested quotes are handled

---
 CppLisp/CppLispInterpreter/Environment.cpp | 13 +++++++---
 CppLisp/CppLispInterpreter/Interpreter.cpp | 27 ++++++++++++--------
 CppLisp/CppLispInterpreter/Parser.cpp      | 13 ++++++++++
 CppLisp/CppLispInterpreter/cstypes.cpp     |  8 +++---
 CppLisp/CppLispInterpreter/cstypes.h       | 29 ++++++++++++++++------
 CppLisp/CppLispInterpreter/fuel.cpp        |  3 ++-
 6 files changed, 66 insertions(+), 27 deletions(-)

diff --git a/CppLisp/CppLispInterpreter/Environment.cpp b/CppLisp/CppLispInterpreter/Environment.cpp
index 29db958..73f7173 100644
--- a/CppLisp/CppLispInterpreter/Environment.cpp
+++ b/CppLisp/CppLispInterpreter/Environment.cpp
@@ -1013,10 +1013,11 @@ static std::shared_ptr<LispVariant> Map(const std::vector<std::shared_ptr<object
 	CheckArgs(MapFcn, 2, args, scope);
 
 	var function = CheckForFunction(MapFcn, args[0], scope)->FunctionValue();
-	var elements = LispEnvironment::CheckForList(MapFcn, args[1], scope);
+	// the called function may change the list
+	var elements = *LispEnvironment::CheckForList(MapFcn, args[1], scope);
 
 	var list = IEnumerable<std::shared_ptr<object>>();
-	for(var elem : *elements)
+	for(var elem : elements)
 	{
 		// call for every element the given function (args[0])
 		std::vector<std::shared_ptr<object>> args;
@@ -1032,11 +1033,12 @@ static std::shared_ptr<LispVariant> Reduce(const std::vector<std::shared_ptr<obj
 	CheckArgs(ReduceFcn, 3, args, scope);
 
 	var function = CheckForFunction(ReduceFcn, args[0], scope)->FunctionValue();
-	var elements = LispEnvironment::CheckForList(ReduceFcn, args[1], scope);
+	// the called function may change the list
+	var elements = *LispEnvironment::CheckForList(ReduceFcn, args[1], scope);
 
 	const LispVariant & start = args[2]->ToLispVariantRef();
 	var result = std::make_shared<LispVariant>(start);
-	for(var elem : *elements)
+	for(var elem : elements)
 	{
 		// call for every element the given function (args[0])
 		std::vector<std::shared_ptr<object>> args;
@@ -1115,6 +1117,7 @@ static std::shared_ptr<LispVariant> First(const std::vector<std::shared_ptr<obje
 			{ 
 				var vl = listValue->ToLispVariantNotConstRef();
 				IEnumerable<std::shared_ptr<object>> & container = vl.ListValueNotConstRef();
+				container.CheckIndex(0);
 				container[0] = newValue;
 			};
 
@@ -1145,6 +1148,7 @@ static std::shared_ptr<LispVariant> Last(const std::vector<std::shared_ptr<objec
 		{
 			var vl = listValue->ToLispVariantNotConstRef();
 			IEnumerable<std::shared_ptr<object>> & container = vl.ListValueNotConstRef();
+			container.CheckIndex(0);
 			container[container.Count()-1] = newValue;
 		};
 
@@ -1189,6 +1193,7 @@ static std::shared_ptr<LispVariant> Nth(const std::vector<std::shared_ptr<object
 		{
 			var vl = listValue->ToLispVariantNotConstRef();
 			IEnumerable<std::shared_ptr<object>> & container = vl.ListValueNotConstRef();
+			container.CheckIndex(index);
 			container[index] = newValue;
 		};
 
diff --git a/CppLisp/CppLispInterpreter/Interpreter.cpp b/CppLisp/CppLispInterpreter/Interpreter.cpp
index e9641d3..cb792cb 100644
--- a/CppLisp/CppLispInterpreter/Interpreter.cpp
+++ b/CppLisp/CppLispInterpreter/Interpreter.cpp
@@ -169,7 +169,7 @@ namespace CppLisp
 #endif
 
 		// evaluate arguments, but allow recursive lists
-		std::vector<std::shared_ptr<object>> arguments(astWithResolvedValues->Count() - 1); // = new object[astWithResolvedValues->Count() - 1];
+		std::vector<std::shared_ptr<object>> arguments;
 		const std::vector<std::shared_ptr<object>> & arrAstWithResolvedValues = astWithResolvedValues->ToArray();
 		for (size_t i = 1; i < astWithResolvedValues->Count(); i++)
 		{
@@ -185,18 +185,16 @@ namespace CppLisp
 				if (variant.IsUnQuoted == LispUnQuoteModus::_UnQuoteSplicing && variant.IsList())
 				{
 					var lst = variant.ListValueRef();
-					arguments.resize(arguments.size() + lst.size() - 1);
 					for(var elem : lst)
 					{
-						arguments[i - 1] = elem;
-						i++;
+						arguments.push_back(elem);
 					}
 
-					break;
+					continue;
 				}
 			}
 
-			arguments[i - 1] = result;
+			arguments.push_back(result);
 		}
 
 #ifndef _DISABLE_DEBUGGER
@@ -248,7 +246,8 @@ namespace CppLisp
 			return ast;
 		}
 
-		const IEnumerable<std::shared_ptr<object>> & astAsList = ast->ToEnumerableOfObjectRef();
+		// the code of a macro may change the list
+		const IEnumerable<std::shared_ptr<object>> astAsList = ast->ToEnumerableOfObjectRef();
 		if (astAsList.size() == 0)
 		{
 			return ast;
@@ -374,17 +373,23 @@ namespace CppLisp
 		/*List<object>*/std::shared_ptr<object> quotedRealArguments = std::make_shared<object>(lst); //  new List<object>() { new LispVariant(LispType.Symbol, LispEnvironment.Quote), realArguments };
 		expression = ReplaceSymbolWithValueInExpression(LispVariant(LispType::_Symbol, std::make_shared<object>("quoted-macro-args")), quotedRealArguments, expression, true, /*ref*/ replaced);
 
-		for (var formalArgument : *formalArguments)
+		const IEnumerable<std::shared_ptr<object>> formalArgs = *formalArguments;
+		for (var formalArgument : formalArgs)
 		{
 			std::shared_ptr<object> value;
-			auto elem = (*astAsList)[i];
+			auto elem = astAsList->ElementAt(i);
 			if (elem->IsIEnumerableOfObject() || elem->IsList())
 			{
-				value = /*elem;*/ ExpandMacros((*astAsList)[i], scope, /*ref*/ anyMacroReplaced);
+				value = /*elem;*/ ExpandMacros(elem, scope, /*ref*/ anyMacroReplaced);
+				if (value == null)
+				{
+					// the argument was a macro definition, which leaves no code
+					value = std::make_shared<object>(LispVariant(LispType::_Nil));
+				}
 			}
 			else
 			{
-				value = std::make_shared<object>(LispVariant((*astAsList)[i]));
+				value = std::make_shared<object>(LispVariant(elem));
 			}
 			expression = ReplaceSymbolWithValueInExpression(/*(LispVariant)*/formalArgument->ToLispVariantRef(), value, expression, false, /*ref*/ anyMacroReplaced);
 			i++;
diff --git a/CppLisp/CppLispInterpreter/Parser.cpp b/CppLisp/CppLispInterpreter/Parser.cpp
index 79e31d8..262f09d 100644
--- a/CppLisp/CppLispInterpreter/Parser.cpp
+++ b/CppLisp/CppLispInterpreter/Parser.cpp
@@ -71,6 +71,10 @@ namespace CppLisp
 			}
 			else if (token->Type == LispTokenType::ListEnd)
 			{
+				if (listStack.size() == 0)
+				{
+					throw LispException(BracketsOutOfBalance, token, moduleName);
+				}
 				var temp = current;
 				listStack.pop();
 				if (listStack.size() > 0)
@@ -101,6 +105,11 @@ namespace CppLisp
 				{
 					current->push_back/*Add*/(std::make_shared<object>(object(*quote)));
 				}
+				else if (!isToplevel)
+				{
+					parseResult = std::make_shared<object>(*quote);
+					return i;
+				}
 			}
 			else if (token->Type == LispTokenType::UnQuote || token->Type == LispTokenType::UnQuoteSplicing)
 			{
@@ -147,6 +156,10 @@ namespace CppLisp
 			throw LispException(BracketsOutOfBalance, token, moduleName);
 		}
 
+		if (current == null)
+		{
+			throw LispException(BracketsOutOfBalance, tokens.size() > 0 ? tokens.back() : null, moduleName);
+		}
 		parseResult = std::make_shared<object>(*current);
 		return i;
 	}
diff --git a/CppLisp/CppLispInterpreter/cstypes.cpp b/CppLisp/CppLispInterpreter/cstypes.cpp
index 533b4e1..9a5d505 100644
--- a/CppLisp/CppLispInterpreter/cstypes.cpp
+++ b/CppLisp/CppLispInterpreter/cstypes.cpp
@@ -116,7 +116,7 @@ namespace CppLisp
 	{
 		m_sText = txt;
 		m_aAllLines = txt.Split("\n");
-		m_aCurrentPos = m_aAllLines.begin();
+		m_iCurrentPos = 0;
 	}
 
 	string TextReader::ReadLine()
@@ -124,10 +124,10 @@ namespace CppLisp
 		string input;
 		if (m_bFromString)
 		{
-			if (m_aCurrentPos != m_aAllLines.end())
+			if (m_iCurrentPos < m_aAllLines.size())
 			{
-				input = *m_aCurrentPos;
-				m_aCurrentPos++;
+				input = m_aAllLines[m_iCurrentPos];
+				m_iCurrentPos++;
 			}
 		}
 		else
diff --git a/CppLisp/CppLispInterpreter/cstypes.h b/CppLisp/CppLispInterpreter/cstypes.h
index 1a390fd..8b1553c 100644
--- a/CppLisp/CppLispInterpreter/cstypes.h
+++ b/CppLisp/CppLispInterpreter/cstypes.h
@@ -27,6 +27,7 @@
 #define _CSTYPES_H
 
 #include "csstring.h"
+#include "csexception.h"
 
 #include <vector>
 #include <map>
@@ -71,6 +72,14 @@ namespace CppLisp
 			return std::vector<T>::size();
 		}
 
+		inline void CheckIndex(size_t index) const
+		{
+			if (index >= std::vector<T>::size())
+			{
+				throw LispExceptionBase("Index out of range");
+			}
+		}
+
 		inline const std::vector<T> & ToArray() const
 		{
 			return *this;
@@ -78,6 +87,7 @@ namespace CppLisp
 
 		inline const T & First() const
 		{
+			CheckIndex(0);
 			return std::vector<T>::front();
 		}
 
@@ -92,11 +102,13 @@ namespace CppLisp
 
 		inline const T & Last() const
 		{
+			CheckIndex(0);
 			return std::vector<T>::back();
 		}
 
 		inline const T ElementAt(size_t index) const
 		{
+			CheckIndex(index);
 			return (*this)[index];
 		}
 
@@ -112,13 +124,17 @@ namespace CppLisp
 
 		inline void Insert(int index, const T & elem)
 		{
+			if (index < 0 || (size_t)index > std::vector<T>::size())
+			{
+				throw LispExceptionBase("Index out of range");
+			}
 			std::vector<T>::insert(this->begin() + index, elem);
 		}
 
 		IEnumerable<T> Skip(int skipNoOfElements)
 		{
 			IEnumerable<T> temp(*this);
-			for (int i = 0; i < skipNoOfElements; i++)
+			for (int i = 0; i < skipNoOfElements && !temp.empty(); i++)
 			{
 				temp.erase(temp.begin());
 			}
@@ -127,14 +143,13 @@ namespace CppLisp
 
 		void RemoveAt(int index)
 		{
-			typename IEnumerable<T>::iterator iter = std::vector<T>::begin();
-			for (int i = 0; i < index; i++)
+			if (index < 0)
 			{
-				++iter;
+				throw LispExceptionBase("Index out of range");
 			}
-			if (iter != std::vector<T>::end())
+			if ((size_t)index < std::vector<T>::size())
 			{
-				std::vector<T>::erase(iter);
+				std::vector<T>::erase(std::vector<T>::begin() + index);
 			}
 		}
 
@@ -322,7 +337,7 @@ namespace CppLisp
 		bool								m_bFromString;
 		string								m_sText;
 		std::vector<string>					m_aAllLines;
-		std::vector<string>::const_iterator m_aCurrentPos;
+		size_t m_iCurrentPos;
 
 	public:
 		TextReader(const string & txt = string::Empty);
diff --git a/CppLisp/CppLispInterpreter/fuel.cpp b/CppLisp/CppLispInterpreter/fuel.cpp
index 36e0210..3e31d2a 100644
--- a/CppLisp/CppLispInterpreter/fuel.cpp
+++ b/CppLisp/CppLispInterpreter/fuel.cpp
@@ -211,7 +211,8 @@ namespace CppLisp
 		}
 		if (ContainsOptionAndRemove(allArgs, "-e"))
 		{
-			script = /*LispUtils.*/GetScriptFilesFromProgramArgs(args)[0]/*.FirstOrDefault()*/;
+			var scripts = /*LispUtils.*/GetScriptFilesFromProgramArgs(args);
+			script = scripts.size() > 0 ? scripts[0] : string::Empty;
 			loadFiles = false;
 		}
 		//org: var libPath = args.Where(v = > v.StartsWith("-l=")).Select(v = > v).ToArray();
-- 
2.43.0


From 8fba827208b55c05419509465d13e24d4ade6c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:59 +0000
Subject: [PATCH 14/34] fix: a list is not changed while its quoted code is
 evaluated, and the debugger stops in an empty expression

---
 CppLisp/CppLispDebugger/Debugger.cpp       | 2 +-
 CppLisp/CppLispInterpreter/Environment.cpp | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/CppLisp/CppLispDebugger/Debugger.cpp b/CppLisp/CppLispDebugger/Debugger.cpp
index 9cf158b..f5cf82c 100644
--- a/CppLisp/CppLispDebugger/Debugger.cpp
+++ b/CppLisp/CppLispDebugger/Debugger.cpp
@@ -263,7 +263,7 @@ namespace CppLisp
 
 	void LispDebugger::InteractiveLoop(std::shared_ptr<LispScope> initialTopScope, std::shared_ptr<IEnumerable<std::shared_ptr<object>>> currentAst, bool startedFromMain, bool tracing, std::shared_ptr<TextWriter> outp, std::shared_ptr<TextReader> inp)
 	{
-		if (currentAst != null)
+		if (currentAst != null && currentAst->size() > 0)
 		{
 			var lineNumber = initialTopScope != null ? initialTopScope->CurrentLineNo() : 0;
 			var startPos = initialTopScope != null ? initialTopScope->CurrentToken->StartPos : 0;
diff --git a/CppLisp/CppLispInterpreter/Environment.cpp b/CppLisp/CppLispInterpreter/Environment.cpp
index 73f7173..ae009f5 100644
--- a/CppLisp/CppLispInterpreter/Environment.cpp
+++ b/CppLisp/CppLispInterpreter/Environment.cpp
@@ -1693,7 +1693,9 @@ static std::shared_ptr<object> ProcessQuotedSExpression(const IEnumerable<std::s
 	}
 	else
 	{
-		for (var itm : expr)
+		// the unquoted code may change the list
+		const IEnumerable<std::shared_ptr<object>> elements = expr;
+		for (var itm : elements)
 		{
 			if (itm->IsIEnumerableOfObject() || itm->IsList())
 			{
-- 
2.43.0


From 986b02af8acd6c1c73a9419a1ce5eb80ee232377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:31 +0000
Subject: [PATCH 15/34] fix: arithmetic on script values is always defined
 (division by zero, overflow, shift counts, large doubles)

---
 CppLisp/CppLispInterpreter/Environment.cpp |  8 ++---
 CppLisp/CppLispInterpreter/Variant.cpp     | 35 ++++++++++++++++++----
 2 files changed, 33 insertions(+), 10 deletions(-)

diff --git a/CppLisp/CppLispInterpreter/Environment.cpp b/CppLisp/CppLispInterpreter/Environment.cpp
index ae009f5..6ab8561 100644
--- a/CppLisp/CppLispInterpreter/Environment.cpp
+++ b/CppLisp/CppLispInterpreter/Environment.cpp
@@ -734,7 +734,7 @@ static std::shared_ptr<LispVariant> ToInt(const std::vector<std::shared_ptr<obje
 	}
 	if (value.IsDouble())
 	{
-		return std::make_shared<LispVariant>(std::make_shared<object>((int)value.DoubleValue()));
+		return std::make_shared<LispVariant>(std::make_shared<object>(value.ToInt()));
 	}
 	if (value.IsString())
 	{
@@ -903,7 +903,7 @@ static std::shared_ptr<LispVariant> Subtraction(const std::vector<std::shared_pt
 		var value = (LispVariant)args[0];
 		if (value.IsInt())
 		{
-			return std::make_shared<LispVariant>(std::make_shared<object>(-value.IntValue()));
+			return std::make_shared<LispVariant>(std::make_shared<object>((int)(0u - (unsigned int)value.IntValue())));
 		}
 		if (value.IsDouble())
 		{
@@ -939,12 +939,12 @@ static std::shared_ptr<LispVariant> Not(const std::vector<std::shared_ptr<object
 
 static std::shared_ptr<LispVariant> LeftShift(const std::vector<std::shared_ptr<object>>& args, std::shared_ptr<LispScope> scope)
 {
-	return FuelFuncWrapper2<LispVariant, LispVariant, LispVariant>(args, scope, "<<", [](const LispVariant & arg1, const LispVariant & arg2) -> LispVariant { return LispVariant(LispType::_Int, std::make_shared<object>(arg1.IntValue() << arg2.IntValue())); });
+	return FuelFuncWrapper2<LispVariant, LispVariant, LispVariant>(args, scope, "<<", [](const LispVariant & arg1, const LispVariant & arg2) -> LispVariant { return LispVariant(LispType::_Int, std::make_shared<object>((int)((unsigned int)arg1.IntValue() << (arg2.IntValue() & 31)))); });
 }
 
 static std::shared_ptr<LispVariant> RightShift(const std::vector<std::shared_ptr<object>>& args, std::shared_ptr<LispScope> scope)
 {
-	return FuelFuncWrapper2<LispVariant, LispVariant, LispVariant>(args, scope, ">>", [](const LispVariant& arg1, const LispVariant& arg2) -> LispVariant { return LispVariant(LispType::_Int, std::make_shared<object>(arg1.IntValue() >> arg2.IntValue())); });
+	return FuelFuncWrapper2<LispVariant, LispVariant, LispVariant>(args, scope, ">>", [](const LispVariant& arg1, const LispVariant& arg2) -> LispVariant { return LispVariant(LispType::_Int, std::make_shared<object>(arg1.IntValue() >> (arg2.IntValue() & 31))); });
 }
 
 static std::shared_ptr<LispVariant> BinaryOr(const std::vector<std::shared_ptr<object>>& args, std::shared_ptr<LispScope> scope)
diff --git a/CppLisp/CppLispInterpreter/Variant.cpp b/CppLisp/CppLispInterpreter/Variant.cpp
index c5e89e3..9ee21aa 100644
--- a/CppLisp/CppLispInterpreter/Variant.cpp
+++ b/CppLisp/CppLispInterpreter/Variant.cpp
@@ -27,6 +27,7 @@
 #include "Exception.h"
 #include "cstypes.h"
 
+#include <limits>
 #include <math.h>
 
 namespace CppLisp
@@ -160,6 +161,25 @@ namespace CppLisp
 		throw CreateInvalidCastException("bool", CppLisp::string::Format(CanNotConvertTo, TypeString(), "bool"));
 	}
 
+	// numbers which are out of range (or no numbers) are converted to the smallest int
+	static int DoubleToInt(double value)
+	{
+		if (value > -2147483649.0 && value < 2147483648.0)
+		{
+			return (int)value;
+		}
+		return std::numeric_limits<int>::min();
+	}
+
+	static int CheckDivisor(int divisor)
+	{
+		if (divisor == 0)
+		{
+			throw LispExceptionBase("Division by zero");
+		}
+		return divisor;
+	}
+
 	int LispVariant::ToInt() const
 	{
 		if (IsBool())
@@ -172,7 +192,7 @@ namespace CppLisp
 		}
 		if (IsDouble())
 		{
-			return (int)DoubleValue();
+			return DoubleToInt(DoubleValue());
 		}
 		if (IsString())
 		{
@@ -376,7 +396,7 @@ namespace CppLisp
 		}
 		if (IsInt() || r.IsInt())
 		{
-			return /*new*/ LispVariant(std::make_shared<object>(ToInt() + r.ToInt()));
+			return /*new*/ LispVariant(std::make_shared<object>((int)((unsigned int)ToInt() + (unsigned int)r.ToInt())));
 		}
 		if (IsList() && r.IsList())
 		{
@@ -396,7 +416,7 @@ namespace CppLisp
 		}
 		if (IsInt() || r.IsInt())
 		{
-			return /*new*/ LispVariant(std::make_shared<object>(ToInt() - r.ToInt()));
+			return /*new*/ LispVariant(std::make_shared<object>((int)((unsigned int)ToInt() - (unsigned int)r.ToInt())));
 		}
 		throw CreateInvalidOperationException("-", *this, r);
 	}
@@ -409,7 +429,7 @@ namespace CppLisp
 		}
 		if (IsInt() || r.IsInt())
 		{
-			return /*new*/ LispVariant(std::make_shared<object>(ToInt() * r.ToInt()));
+			return /*new*/ LispVariant(std::make_shared<object>((int)((unsigned int)ToInt() * (unsigned int)r.ToInt())));
 		}
 		throw CreateInvalidOperationException("*", *this, r);
 	}
@@ -422,7 +442,9 @@ namespace CppLisp
 		}
 		if (IsInt() || r.IsInt())
 		{
-			return /*new*/ LispVariant(std::make_shared<object>(ToInt() / r.ToInt()));
+			const int divisor = CheckDivisor(r.ToInt());
+			// avoid the overflow for the division of the smallest number by -1
+			return /*new*/ LispVariant(std::make_shared<object>(divisor == -1 ? (int)(0u - (unsigned int)ToInt()) : ToInt() / divisor));
 		}
 		throw CreateInvalidOperationException("/", *this, r);
 	}
@@ -435,7 +457,8 @@ namespace CppLisp
 		}
 		if (IsInt() || r.IsInt())
 		{
-			return /*new*/ LispVariant(std::make_shared<object>(ToInt() % r.ToInt()));
+			const int divisor = CheckDivisor(r.ToInt());
+			return /*new*/ LispVariant(std::make_shared<object>(divisor == -1 ? 0 : ToInt() % divisor));
 		}
 		throw CreateInvalidOperationException("%", *this, r);
 	}
-- 
2.43.0


From 458a06b08d281fad2b5a4d4cb3a12a1f72d9d1b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:55 +0000
Subject: [PATCH 16/34] fix: the number given to the debugger command clear can
 not overflow

---
 CppLisp/CppLispDebugger/Debugger.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CppLisp/CppLispDebugger/Debugger.cpp b/CppLisp/CppLispDebugger/Debugger.cpp
index f5cf82c..07f8e93 100644
--- a/CppLisp/CppLispDebugger/Debugger.cpp
+++ b/CppLisp/CppLispDebugger/Debugger.cpp
@@ -398,7 +398,7 @@ namespace CppLisp
 
 	bool LispDebugger::ClearBreakpoint(int no)
 	{
-		size_t index = no - 1;
+		size_t index = (size_t)no - 1;
 		if (/*index >= 0 &&*/ index < Breakpoints.size())
 		{
 			Breakpoints./*RemoveAt*/erase(Breakpoints.begin() + index);
-- 
2.43.0


From 0622fb3bcd3f0dc5d2c4332a3c9bd16a90f4a04a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:38 +0000
Subject: [PATCH 17/34] fix: the state of a session is restored when a
 construct is left, also by an error

---
 CppLisp/CppLispDebugger/Debugger.cpp       |  4 ++
 CppLisp/CppLispInterpreter/Environment.cpp | 42 ++++++-------
 CppLisp/CppLispInterpreter/Scope.h         | 71 ++++++++++++++++++++++
 3 files changed, 93 insertions(+), 24 deletions(-)

diff --git a/CppLisp/CppLispDebugger/Debugger.cpp b/CppLisp/CppLispDebugger/Debugger.cpp
index 07f8e93..5bcad52 100644
--- a/CppLisp/CppLispDebugger/Debugger.cpp
+++ b/CppLisp/CppLispDebugger/Debugger.cpp
@@ -126,6 +126,7 @@ namespace CppLisp
 				if (items.size() > 1)
 				{
 					string docCmd = "(doc '" + items[1] + ")";
+					LispEvalContext context(*currentScope);
 					std::shared_ptr<LispVariant> result = Lisp::Eval(docCmd, currentScope, currentScope->ModuleName);
 					debugger->Output->WriteLine(string("{0}"), result->ToString());
 				}
@@ -140,6 +141,7 @@ namespace CppLisp
 				if (items.size() > 1)
 				{
 					string docCmd = "(searchdoc '" + items[1] + ")";
+					LispEvalContext context(*currentScope);
 					std::shared_ptr<LispVariant> result = Lisp::Eval(docCmd, currentScope, currentScope->ModuleName);
 					debugger->Output->WriteLine(string("{0}"), result->ToString());
 				}
@@ -243,6 +245,7 @@ namespace CppLisp
 			{
 				try
 				{
+					LispEvalContext context(*currentScope);
 					std::shared_ptr<LispVariant> result = Lisp::Eval(cmd, currentScope, currentScope->ModuleName, /*tracing:*/false, outp, inp);
 					debugger->Output->WriteLine("result={0}", result->ToString());
 					interactiveScript += cmd + "\n";
@@ -359,6 +362,7 @@ namespace CppLisp
 				{
 					try
 					{
+						LispEvalContext context(*scope);
 						std::shared_ptr<LispVariant> result = Lisp::Eval(breakpoint.Condition, scope, scope->ModuleName);
 						return result->BoolValue();
 					}
diff --git a/CppLisp/CppLispInterpreter/Environment.cpp b/CppLisp/CppLispInterpreter/Environment.cpp
index 6ab8561..cfedbb0 100644
--- a/CppLisp/CppLispInterpreter/Environment.cpp
+++ b/CppLisp/CppLispInterpreter/Environment.cpp
@@ -303,11 +303,10 @@ static std::shared_ptr<LispVariant> Help(const std::vector<std::shared_ptr<objec
 static std::shared_ptr<LispVariant> DumpDocumentation(std::shared_ptr<LispScope> scope, Action dump)
 {
 	//string text; // var text = new StringBuilder();
-	var tempOutputWriter = scope->GlobalScope->Output;
+	RestoreAtExit<std::shared_ptr<TextWriter>> restoreOutput(scope->GlobalScope->Output);
 	scope->GlobalScope->Output = std::make_shared<TextWriter>(true); // StringWriter(text);
 	dump();
 	string text = scope->GlobalScope->Output->GetContent();
-	scope->GlobalScope->Output = tempOutputWriter;
 	return std::make_shared<LispVariant>(std::make_shared<object>(text));
 }
 
@@ -591,14 +590,12 @@ static std::shared_ptr<LispVariant> Import(const std::vector<std::shared_ptr<obj
 		if (!string::IsNullOrEmpty(code))
 		{
 			var importScope = std::make_shared<LispScope>("import " + fileName, scope->GlobalScope, std::make_shared<string>(fileName), scope->Output, scope->Input);
-			scope->PushNextScope(importScope);
+			LispCallFrame frame(scope, importScope);
 
 			result = Lisp::Eval(code, importScope, fileName);
 
 			// add new module to modules scope
 			(*(((*(scope->GlobalScope))[LispEnvironment::Modules])->GetLispScopeRef()))[fileName] = std::make_shared<object>(*importScope); // .Add(fileName, importScope);
-
-			scope->PopNextScope();
 		}
 	}
 	return result;
@@ -1295,11 +1292,9 @@ static std::shared_ptr<LispVariant> RValue(const std::vector<std::shared_ptr<obj
 {
 	CheckArgs("rval", 1, args, scope);
 
-	var originalLValue = scope->NeedsLValue;
+	RestoreAtExit<bool> restoreLValue(scope->NeedsLValue);
 	scope->NeedsLValue = false;
-	var value = EvalArgIfNeeded(args[0], scope);
-	scope->NeedsLValue = originalLValue;
-	return value;
+	return EvalArgIfNeeded(args[0], scope);
 }
 
 static std::shared_ptr<LispVariant> SymbolFcn(const std::vector<std::shared_ptr<object>> & args, std::shared_ptr<LispScope> scope)
@@ -1396,12 +1391,9 @@ static std::shared_ptr<LispVariant> EvalStrFcn(const std::vector<std::shared_ptr
 	CheckArgs("evalstr", 1, args, scope);
 
 	const LispVariant & variant = args[0]->ToLispVariantRef();
-	var tempModuleName = scope->ModuleName;
+	LispEvalContext context(*scope);
 	scope->IsInEval = true;
-	var result = Lisp::Eval(variant.Value->ToString(), scope, LispEnvironment::EvalStrTag + scope->ModuleName + ":" + variant.Value->ToString());
-	scope->IsInEval = false;
-	scope->ModuleName = tempModuleName;
-	return result;
+	return Lisp::Eval(variant.Value->ToString(), scope, LispEnvironment::EvalStrTag + scope->ModuleName + ":" + variant.Value->ToString());
 }
 
 static std::shared_ptr<LispVariant> MakeDict(const std::vector<std::shared_ptr<object>> & args, std::shared_ptr<LispScope> scope)
@@ -1543,10 +1535,12 @@ static std::shared_ptr<LispVariant> setf_form(const std::vector<std::shared_ptr<
 {
 	CheckArgs(Setf, 2, args, scope);
 
-	var originalNeedsLValue = scope->NeedsLValue;
-	scope->NeedsLValue = true;
-	var symbol = EvalArgIfNeeded(args[0], scope);
-	scope->NeedsLValue = originalNeedsLValue;
+	std::shared_ptr<LispVariant> symbol;
+	{
+		RestoreAtExit<bool> restoreLValue(scope->NeedsLValue);
+		scope->NeedsLValue = true;
+		symbol = EvalArgIfNeeded(args[0], scope);
+	}
 	var symbolName = symbol != null ? symbol->ToString() : /*null*/string::Empty;
 	var value = LispInterpreter::EvalAst(args[1], scope);
 	if (symbol->IsLValue())
@@ -1817,7 +1811,7 @@ std::shared_ptr<LispVariant> fn_form(const std::vector<std::shared_ptr<object>>
 		[name, moduleName, args, scope](const std::vector<std::shared_ptr<object>> & localArgs, std::shared_ptr<LispScope> localScope) -> std::shared_ptr<LispVariant>
 	{
 		var childScope = std::make_shared<LispScope>(name, localScope->GlobalScope, std::make_shared<string>(moduleName), scope->Output, scope->Input);
-		localScope->PushNextScope(childScope);
+		LispCallFrame frame(localScope, childScope);
 
 		// add formal arguments to current scope
 		var i = 0;
@@ -1871,10 +1865,9 @@ std::shared_ptr<LispVariant> fn_form(const std::vector<std::shared_ptr<object>>
 		childScope->ClosureChain = scope;
 		childScope->NeedsLValue = scope->NeedsLValue;     // support setf in recursive calls
 
-		std::shared_ptr<LispVariant> ret;
 		try
 		{
-			ret = LispInterpreter:: EvalAst(args[1], childScope);
+			return LispInterpreter:: EvalAst(args[1], childScope);
 		}
 		catch (LispStopDebuggerException &)
 		{
@@ -1898,8 +1891,6 @@ std::shared_ptr<LispVariant> fn_form(const std::vector<std::shared_ptr<object>>
 
 			throw;
 		}
-		localScope->PopNextScope();
-		return ret;
 	};
 
 	return std::make_shared<LispVariant>(CreateFunction(fcn, signature, documentation, /*isBuiltin:*/ false, /*isSpecialForm:*/ false,/*isEvalInExpand: */ false, /*moduleName :*/ scope->ModuleName));
@@ -1981,6 +1972,10 @@ static std::shared_ptr<LispVariant> defn_form_helper(const std::vector<std::shar
 {
 	CheckArgs(name, 3, args, scope);
 
+	// only valid for the function which is defined here
+	RestoreAtExit<std::shared_ptr<Tuple<string, string>>> restoreUserDoc(scope->UserDoc);
+	RestoreAtExit<std::shared_ptr<object>> restoreUserData(scope->UserData);
+
 	UpdateDocumentationInformationAtScope(args, scope);
 
 	var fn = ((*(scope->GlobalScope))[Fn])->ToLispVariantRef().FunctionValue();
@@ -1990,7 +1985,6 @@ static std::shared_ptr<LispVariant> defn_form_helper(const std::vector<std::shar
 	tempArgs.push_back(args[1]);
 	tempArgs.push_back(args[2]);
 	var resultingFcn = fn.Function(tempArgs, scope);
-	scope->UserData = null;
 
 	var defFcn = ((*(scope->GlobalScope))[name])->ToLispVariantRef().FunctionValue();
 	std::vector<std::shared_ptr<object>> tempArgs2;
diff --git a/CppLisp/CppLispInterpreter/Scope.h b/CppLisp/CppLispInterpreter/Scope.h
index e35cab7..0acb321 100644
--- a/CppLisp/CppLispInterpreter/Scope.h
+++ b/CppLisp/CppLispInterpreter/Scope.h
@@ -291,6 +291,77 @@ namespace CppLisp
 
         //#endregion
 	};
+
+	/// <summary>
+	/// Restores a value when the current block is left, even if it is left with an exception.
+	/// </summary>
+	template <class T>
+	class RestoreAtExit
+	{
+	private:
+		T & m_Value;
+		const T m_Saved;
+
+		RestoreAtExit(const RestoreAtExit & other);
+		RestoreAtExit & operator=(const RestoreAtExit & other);
+
+	public:
+		explicit RestoreAtExit(T & value)
+			: m_Value(value), m_Saved(value)
+		{
+		}
+
+		~RestoreAtExit()
+		{
+			m_Value = m_Saved;
+		}
+	};
+
+	/// <summary>
+	/// Links the scope of a called function (or module) to its caller as long as the call is active.
+	/// </summary>
+	class LispCallFrame
+	{
+	private:
+		std::shared_ptr<LispScope> m_Scope;
+		std::shared_ptr<LispScope> m_SavedNext;
+
+		LispCallFrame(const LispCallFrame & other);
+		LispCallFrame & operator=(const LispCallFrame & other);
+
+	public:
+		LispCallFrame(std::shared_ptr<LispScope> scope, std::shared_ptr<LispScope> nextScope)
+			: m_Scope(scope), m_SavedNext(scope->Next)
+		{
+			m_Scope->PushNextScope(nextScope);
+		}
+
+		~LispCallFrame()
+		{
+			m_Scope->PopNextScope();
+			m_Scope->Next = m_SavedNext;
+		}
+	};
+
+	/// <summary>
+	/// Keeps the settings of a scope while other script code is evaluated in that scope.
+	/// </summary>
+	class LispEvalContext
+	{
+	private:
+		RestoreAtExit<string> m_ModuleName;
+		RestoreAtExit<bool> m_IsInEval;
+		RestoreAtExit<bool> m_Tracing;
+		RestoreAtExit<IEnumerable<std::shared_ptr<LispToken>>> m_Tokens;
+		RestoreAtExit<std::shared_ptr<TextWriter>> m_Output;
+		RestoreAtExit<std::shared_ptr<TextReader>> m_Input;
+
+	public:
+		explicit LispEvalContext(LispScope & scope)
+			: m_ModuleName(scope.ModuleName), m_IsInEval(scope.IsInEval), m_Tracing(scope.Tracing), m_Tokens(scope.Tokens), m_Output(scope.Output), m_Input(scope.Input)
+		{
+		}
+	};
 }
 
 #endif
-- 
2.43.0


From 6e528b3d25e4b1ec44d1f11fdfca556aad5dce63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:24 +0000
Subject: [PATCH 18/34] fix: a return outside of a function does not end the
 following evaluations of the session

---
 CppLisp/CppLispDebugger/Debugger.cpp | 4 ++++
 CppLisp/CppLispInterpreter/Lisp.cpp  | 5 +++++
 2 files changed, 9 insertions(+)

diff --git a/CppLisp/CppLispDebugger/Debugger.cpp b/CppLisp/CppLispDebugger/Debugger.cpp
index 5bcad52..db1a701 100644
--- a/CppLisp/CppLispDebugger/Debugger.cpp
+++ b/CppLisp/CppLispDebugger/Debugger.cpp
@@ -127,6 +127,7 @@ namespace CppLisp
 				{
 					string docCmd = "(doc '" + items[1] + ")";
 					LispEvalContext context(*currentScope);
+					RestoreAtExit<bool> restoreReturn(currentScope->IsInReturn);
 					std::shared_ptr<LispVariant> result = Lisp::Eval(docCmd, currentScope, currentScope->ModuleName);
 					debugger->Output->WriteLine(string("{0}"), result->ToString());
 				}
@@ -142,6 +143,7 @@ namespace CppLisp
 				{
 					string docCmd = "(searchdoc '" + items[1] + ")";
 					LispEvalContext context(*currentScope);
+					RestoreAtExit<bool> restoreReturn(currentScope->IsInReturn);
 					std::shared_ptr<LispVariant> result = Lisp::Eval(docCmd, currentScope, currentScope->ModuleName);
 					debugger->Output->WriteLine(string("{0}"), result->ToString());
 				}
@@ -246,6 +248,7 @@ namespace CppLisp
 				try
 				{
 					LispEvalContext context(*currentScope);
+					RestoreAtExit<bool> restoreReturn(currentScope->IsInReturn);
 					std::shared_ptr<LispVariant> result = Lisp::Eval(cmd, currentScope, currentScope->ModuleName, /*tracing:*/false, outp, inp);
 					debugger->Output->WriteLine("result={0}", result->ToString());
 					interactiveScript += cmd + "\n";
@@ -363,6 +366,7 @@ namespace CppLisp
 					try
 					{
 						LispEvalContext context(*scope);
+						RestoreAtExit<bool> restoreReturn(scope->IsInReturn);
 						std::shared_ptr<LispVariant> result = Lisp::Eval(breakpoint.Condition, scope, scope->ModuleName);
 						return result->BoolValue();
 					}
diff --git a/CppLisp/CppLispInterpreter/Lisp.cpp b/CppLisp/CppLispInterpreter/Lisp.cpp
index 34b8bbf..05a607d 100644
--- a/CppLisp/CppLispInterpreter/Lisp.cpp
+++ b/CppLisp/CppLispInterpreter/Lisp.cpp
@@ -117,6 +117,11 @@ namespace CppLisp
 		var currentScope = scope == null ? LispEnvironment::CreateDefaultScope() : scope;
 		currentScope->ModuleName = moduleName;
 		currentScope->Tracing = tracing;
+		// a return of a former evaluation must not end this one
+		if (!currentScope->IsInEval)
+		{
+			currentScope->IsInReturn = false;
+		}
 		currentScope->Output = outp != null ? outp : (scope != null ? scope->Output : std::make_shared<TextWriter>());
 		currentScope->Input = inp != null ? inp : (scope != null ? scope->Input : std::make_shared<TextReader>());
 		RegisterNativeObjects(/*nativeItems,*/ *currentScope);
-- 
2.43.0


From ab6a2bff0a5207994ffaf69a9fde1768c406d1e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:22 +0000
Subject: [PATCH 19/34] fix: a variable of an enclosing function is not hidden
 by a global variable with the same name

---
 CppLisp/CppLispInterpreter/Scope.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/CppLisp/CppLispInterpreter/Scope.cpp b/CppLisp/CppLispInterpreter/Scope.cpp
index 1c8f21a..72b9c17 100644
--- a/CppLisp/CppLispInterpreter/Scope.cpp
+++ b/CppLisp/CppLispInterpreter/Scope.cpp
@@ -103,17 +103,17 @@ namespace CppLisp
 			result = item->second;
 //			UpdateFunctionCache(elem->ToLispVariantNotConstRef(), result, isFirst);
 		}
-		// then try to resolve in global scope
-		else if (GlobalScope != null && GlobalScope->ContainsKey(name, &value))
+		// then try to resolve in closure chain scope(s), like SetInScopes()
+		else if (IsInClosureChain(name, foundClosureScope, &value))
 		{
-			//result = (*GlobalScope)[name];
+			//result = (*foundClosureScope)[name];
 			result = value;
 //			UpdateFunctionCache(elem->ToLispVariantNotConstRef(), result, isFirst);
 		}
-		// then try to resolve in closure chain scope(s)
-		else if (IsInClosureChain(name, foundClosureScope, &value))
+		// then try to resolve in global scope
+		else if (GlobalScope != null && GlobalScope->ContainsKey(name, &value))
 		{
-			//result = (*foundClosureScope)[name];
+			//result = (*GlobalScope)[name];
 			result = value;
 //			UpdateFunctionCache(elem->ToLispVariantNotConstRef(), result, isFirst);
 		}
-- 
2.43.0


From 66ab2d546d634706ba6634b68dc4951c4fe77009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:09 +0000
Subject: [PATCH 20/34] fix: a value without content does not crash the
 operations on values

---
 CppLisp/CppLispInterpreter/Variant.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/CppLisp/CppLispInterpreter/Variant.cpp b/CppLisp/CppLispInterpreter/Variant.cpp
index 9ee21aa..e37244c 100644
--- a/CppLisp/CppLispInterpreter/Variant.cpp
+++ b/CppLisp/CppLispInterpreter/Variant.cpp
@@ -46,7 +46,8 @@ namespace CppLisp
 	{
 		Token = null;
 		Type = type;
-		Value = value;
+		// a variant without a value (for example nil) has an undefined value
+		Value = value != null ? value : std::make_shared<object>();
 		IsUnQuoted = unQuoted;
 	}
 
@@ -226,7 +227,7 @@ namespace CppLisp
 	{
 		//get
 		//{
-		if (Value != null)
+		if (Value->GetType() != ObjectType::__Undefined)
 		{
 			return Value->ToString();
 		}
-- 
2.43.0


From bdf3f9bce148729308103a0b71926c3cab285cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:57 +0000
Subject: [PATCH 21/34] fix: an evaluation without a result does not crash the
 construct which uses it

---
 CppLisp/CppLispDebugger/Debugger.cpp       |  8 +++---
 CppLisp/CppLispInterpreter/Environment.cpp | 33 +++++++++++-----------
 CppLisp/CppLispInterpreter/Interpreter.cpp |  4 +--
 CppLisp/CppLispInterpreter/Lisp.cpp        |  7 ++++-
 CppLisp/CppLispInterpreter/Variant.cpp     |  5 ++++
 CppLisp/CppLispInterpreter/Variant.h       |  3 ++
 CppLisp/CppLispInterpreter/fuel.cpp        |  4 +--
 7 files changed, 39 insertions(+), 25 deletions(-)

diff --git a/CppLisp/CppLispDebugger/Debugger.cpp b/CppLisp/CppLispDebugger/Debugger.cpp
index db1a701..13a2a82 100644
--- a/CppLisp/CppLispDebugger/Debugger.cpp
+++ b/CppLisp/CppLispDebugger/Debugger.cpp
@@ -129,7 +129,7 @@ namespace CppLisp
 					LispEvalContext context(*currentScope);
 					RestoreAtExit<bool> restoreReturn(currentScope->IsInReturn);
 					std::shared_ptr<LispVariant> result = Lisp::Eval(docCmd, currentScope, currentScope->ModuleName);
-					debugger->Output->WriteLine(string("{0}"), result->ToString());
+					debugger->Output->WriteLine(string("{0}"), LispVariant::ValueOrNil(result)->ToString());
 				}
 				else
 				{
@@ -145,7 +145,7 @@ namespace CppLisp
 					LispEvalContext context(*currentScope);
 					RestoreAtExit<bool> restoreReturn(currentScope->IsInReturn);
 					std::shared_ptr<LispVariant> result = Lisp::Eval(docCmd, currentScope, currentScope->ModuleName);
-					debugger->Output->WriteLine(string("{0}"), result->ToString());
+					debugger->Output->WriteLine(string("{0}"), LispVariant::ValueOrNil(result)->ToString());
 				}
 				else
 				{
@@ -250,7 +250,7 @@ namespace CppLisp
 					LispEvalContext context(*currentScope);
 					RestoreAtExit<bool> restoreReturn(currentScope->IsInReturn);
 					std::shared_ptr<LispVariant> result = Lisp::Eval(cmd, currentScope, currentScope->ModuleName, /*tracing:*/false, outp, inp);
-					debugger->Output->WriteLine("result={0}", result->ToString());
+					debugger->Output->WriteLine("result={0}", LispVariant::ValueOrNil(result)->ToString());
 					interactiveScript += cmd + "\n";
 				}
 				catch (LispExceptionBase & ex)
@@ -368,7 +368,7 @@ namespace CppLisp
 						LispEvalContext context(*scope);
 						RestoreAtExit<bool> restoreReturn(scope->IsInReturn);
 						std::shared_ptr<LispVariant> result = Lisp::Eval(breakpoint.Condition, scope, scope->ModuleName);
-						return result->BoolValue();
+						return LispVariant::ValueOrNil(result)->BoolValue();
 					}
 					catch (...)
 					{
diff --git a/CppLisp/CppLispInterpreter/Environment.cpp b/CppLisp/CppLispInterpreter/Environment.cpp
index cfedbb0..21433f7 100644
--- a/CppLisp/CppLispInterpreter/Environment.cpp
+++ b/CppLisp/CppLispInterpreter/Environment.cpp
@@ -244,7 +244,7 @@ static std::shared_ptr<object> CreateFunction(FuncX func, const string & signatu
 
 static std::shared_ptr<LispVariant> EvalArgIfNeeded(std::shared_ptr<object> arg, std::shared_ptr<LispScope> scope)
 {
-	return (arg->IsIEnumerableOfObject() /*is IEnumerable<object>*/ || arg->IsList()) ? LispInterpreter::EvalAst(arg, scope) : arg->ToLispVariant();
+	return (arg->IsIEnumerableOfObject() /*is IEnumerable<object>*/ || arg->IsList()) ? LispVariant::ValueOrNil(LispInterpreter::EvalAst(arg, scope)) : arg->ToLispVariant();
 }
 
 static std::shared_ptr<LispVariant> def_form_helper(const std::vector<std::shared_ptr<object>> & args, std::shared_ptr<LispScope> scope, const string & name, std::shared_ptr<LispScope> scopeToSet)
@@ -256,7 +256,7 @@ static std::shared_ptr<LispVariant> def_form_helper(const std::vector<std::share
 	{
 		throw LispException("Symbol expected", scope.get());
 	}
-	var value = LispInterpreter::EvalAst(args[1], scope);
+	var value = LispVariant::ValueOrNil(LispInterpreter::EvalAst(args[1], scope));
 	var ret = std::make_shared<object>(*value);
 	(*scopeToSet)[symbol->ToString()] = ret;
 	return std::make_shared<LispVariant>(ret);
@@ -879,7 +879,8 @@ static std::shared_ptr<LispVariant> ArithmetricOperation(const std::vector<std::
 			result = op(result, std::make_shared<LispVariant>(LispVariant(elem)));
 		}
 	}
-	return result;
+	// without arguments there is no result
+	return result != null ? result : std::make_shared<LispVariant>();
 }
 
 static std::shared_ptr<LispVariant> CompareOperation(const std::vector<std::shared_ptr<object>> & args, std::function<bool(const LispVariant &, const LispVariant &)> op, std::shared_ptr<LispScope> scope, const string & name)
@@ -1019,7 +1020,7 @@ static std::shared_ptr<LispVariant> Map(const std::vector<std::shared_ptr<object
 		// call for every element the given function (args[0])
 		std::vector<std::shared_ptr<object>> args;
 		args.push_back(std::make_shared<object>(*elem));
-		list.Add(std::make_shared<object>(*(function.Function(args, scope))));
+		list.Add(std::make_shared<object>(*LispVariant::ValueOrNil(function.Function(args, scope))));
 	}
 	var result = std::make_shared<LispVariant>(LispType::_List, std::make_shared<object>(list));
 	return result;
@@ -1041,7 +1042,7 @@ static std::shared_ptr<LispVariant> Reduce(const std::vector<std::shared_ptr<obj
 		std::vector<std::shared_ptr<object>> args;
 		args.push_back(std::make_shared<object>(*elem));
 		args.push_back(std::make_shared<object>(*result));		
-		var x = *(function.Function(args, scope));
+		var x = *LispVariant::ValueOrNil(function.Function(args, scope));
 		result = std::make_shared<LispVariant>(x);
 	}
 	return result;
@@ -1353,7 +1354,7 @@ static std::shared_ptr<LispVariant> ApplyFcn(const std::vector<std::shared_ptr<o
 {
 	CheckArgs(LispEnvironment::Apply, 2, args, scope);
 
-	var fcn = LispInterpreter::EvalAst(args[0], scope);
+	var fcn = LispVariant::ValueOrNil(LispInterpreter::EvalAst(args[0], scope));
 
 	const LispVariant & arguments = args[1]->ToLispVariantRef();
 
@@ -1489,7 +1490,7 @@ static std::shared_ptr<LispVariant> bool_operation_form(const std::vector<std::s
 	var result = initial;
 	for(var arg : args)
 	{
-		bool value = LispInterpreter::EvalAst(arg, scope)->BoolValue();
+		bool value = LispVariant::ValueOrNil(LispInterpreter::EvalAst(arg, scope))->BoolValue();
 		result = func(result, value);
 		if (initial)
 		{ 
@@ -1542,7 +1543,7 @@ static std::shared_ptr<LispVariant> setf_form(const std::vector<std::shared_ptr<
 		symbol = EvalArgIfNeeded(args[0], scope);
 	}
 	var symbolName = symbol != null ? symbol->ToString() : /*null*/string::Empty;
-	var value = LispInterpreter::EvalAst(args[1], scope);
+	var value = LispVariant::ValueOrNil(LispInterpreter::EvalAst(args[1], scope));
 	if (symbol->IsLValue())
 	{
 		std::function<void(std::shared_ptr<object>)> action = symbol->Value->ToSetterAction();
@@ -1569,7 +1570,7 @@ static std::shared_ptr<LispVariant> definemacroevaluate_form(const std::vector<s
 		}
 	}
 
-	return null;
+	return std::make_shared<LispVariant>();
 }
 
 #ifdef ENABLE_COMPILE_TIME_MACROS 
@@ -1587,7 +1588,7 @@ static std::shared_ptr<LispVariant> definemacroexpand_form(const std::vector<std
 		(*macros)[args[0]->ToString()] = std::make_shared<object>(LispMacroCompileTimeExpand(LispEnvironment::GetExpression(args[1]), std::make_shared<IEnumerable<std::shared_ptr<object>>>(result->ToEnumerableOfObjectRef())));
 	}
 
-	return null;
+	return std::make_shared<LispVariant>();
 }
 
 #endif
@@ -1611,7 +1612,7 @@ std::shared_ptr<object> UnQuoteIfNeeded(std::shared_ptr<object> item, bool & isS
 			if (value.IsList())
 			{
 				std::shared_ptr<object> pObj = std::make_shared<object>(value.ListValueRef());
-				return LispInterpreter::EvalAst(pObj, scope)->Value;
+				return LispVariant::ValueOrNil(LispInterpreter::EvalAst(pObj, scope))->Value;
 			}
 			else
 			{
@@ -1676,7 +1677,7 @@ static std::shared_ptr<object> ProcessQuotedSExpression(const IEnumerable<std::s
 			const LispVariant & variant = item1->ToLispVariantRef();
 			if (variant.IsSymbol() && (variant.ToString() == LispEnvironment::UnQuote || variant.ToString() == LispEnvironment::UnQuoteSplicing))
 			{
-				var evalResult = LispInterpreter::EvalAst(item2, scope);
+				var evalResult = LispVariant::ValueOrNil(LispInterpreter::EvalAst(item2, scope));
 				splicing = variant.ToString() == LispEnvironment::UnQuoteSplicing;
 				evalResult->IsUnQuoted = splicing ? LispUnQuoteModus::_UnQuoteSplicing : LispUnQuoteModus::_UnQuote;
 				return std::make_shared<object>(*evalResult);
@@ -1740,7 +1741,7 @@ static std::shared_ptr<LispVariant> if_form(const std::vector<std::shared_ptr<ob
 		CheckArgs(If, -1, args, scope);
 	}
 
-	var passed = LispInterpreter::EvalAst(args[0], scope)->BoolValue();
+	var passed = LispVariant::ValueOrNil(LispInterpreter::EvalAst(args[0], scope))->BoolValue();
 	var elseCode = args.size() > 2 ? args[2] : null; // PATCH for PIC32MX ? std::make_shared<object>(null);
 	return LispInterpreter::EvalAst(passed ? args[1] : elseCode, scope);
 }
@@ -1750,7 +1751,7 @@ static std::shared_ptr<LispVariant> while_form(const std::vector<std::shared_ptr
 	CheckArgs(While, 2, args, scope);
 
 	var result = std::make_shared<LispVariant>();
-	var condition = LispInterpreter::EvalAst(args[0], scope);
+	var condition = LispVariant::ValueOrNil(LispInterpreter::EvalAst(args[0], scope));
 	while (condition->ToBool())
 	{
 		result = LispInterpreter::EvalAst(args[1], scope);
@@ -1758,7 +1759,7 @@ static std::shared_ptr<LispVariant> while_form(const std::vector<std::shared_ptr
 		{
 			break;
 		}
-		condition = LispInterpreter::EvalAst(args[0], scope);
+		condition = LispVariant::ValueOrNil(LispInterpreter::EvalAst(args[0], scope));
 	}
 	return result;
 }
@@ -1989,7 +1990,7 @@ static std::shared_ptr<LispVariant> defn_form_helper(const std::vector<std::shar
 	var defFcn = ((*(scope->GlobalScope))[name])->ToLispVariantRef().FunctionValue();
 	std::vector<std::shared_ptr<object>> tempArgs2;
 	tempArgs2.push_back(args[0]);
-	tempArgs2.push_back(std::make_shared<object>(*resultingFcn));
+	tempArgs2.push_back(std::make_shared<object>(*LispVariant::ValueOrNil(resultingFcn)));
 	return defFcn.Function(tempArgs2, scope);
 }
 
diff --git a/CppLisp/CppLispInterpreter/Interpreter.cpp b/CppLisp/CppLispInterpreter/Interpreter.cpp
index cb792cb..376c719 100644
--- a/CppLisp/CppLispInterpreter/Interpreter.cpp
+++ b/CppLisp/CppLispInterpreter/Interpreter.cpp
@@ -175,7 +175,7 @@ namespace CppLisp
 		{
 			var needEvaluation = (arrAstWithResolvedValues[i]->IsList() /*is IEnumerable<object>*/) && !functionWrapper.IsSpecialForm();
 
-			var result = needEvaluation ? std::make_shared<object>(*EvalAst(arrAstWithResolvedValues[i], scope)) : arrAstWithResolvedValues[i];
+			var result = needEvaluation ? std::make_shared<object>(*LispVariant::ValueOrNil(EvalAst(arrAstWithResolvedValues[i], scope))) : arrAstWithResolvedValues[i];
 			//var result = needEvaluation ? EvalAst(arrAstWithResolvedValues[i], scope)->Value : arrAstWithResolvedValues[i];
 
 			// process statemens like this: `,@l  with l = (1 2 3)
@@ -284,7 +284,7 @@ namespace CppLisp
 				var macroExpand = macro->ToLispMacroCompileTimeExpand();
 				var astWithReplacedArguments = std::make_shared<object>(*ReplaceFormalArgumentsInExpression(macroExpand->FormalArguments, std::make_shared<IEnumerable<std::shared_ptr<object>>>(astAsList), macroExpand->Expression, globalScope, /*ref*/ anyMacroReplaced));
 				// process recursive macro expands (do not wrap list as LispVariant at this point)
-				var processedAst = ConvertLispVariantListToListIfNeeded(EvalAst(astWithReplacedArguments, globalScope)->Value);
+				var processedAst = ConvertLispVariantListToListIfNeeded(LispVariant::ValueOrNil(EvalAst(astWithReplacedArguments, globalScope))->Value);
 				return std::make_shared<object>(*processedAst);
 			}
 		}
diff --git a/CppLisp/CppLispInterpreter/Lisp.cpp b/CppLisp/CppLispInterpreter/Lisp.cpp
index 05a607d..c8c9a30 100644
--- a/CppLisp/CppLispInterpreter/Lisp.cpp
+++ b/CppLisp/CppLispInterpreter/Lisp.cpp
@@ -129,7 +129,12 @@ namespace CppLisp
 		string code = /*LispUtils.*/DecorateWithBlock(lispCode, /*out*/ offset);
 		var ast = LispParser::Parse(code, offset, currentScope);
 #ifdef ENABLE_COMPILE_TIME_MACROS 
-		var expandedAst = std::make_shared<object>(*(LispInterpreter::ExpandMacros(std::make_shared<object>(*ast), currentScope)));
+		var expandedAst = LispInterpreter::ExpandMacros(std::make_shared<object>(*ast), currentScope);
+		if (expandedAst == null)
+		{
+			// the code was only a macro definition, which leaves no code
+			expandedAst = std::make_shared<object>(LispVariant(LispType::_Nil));
+		}
 #else
 		var expandedAst = std::make_shared<object>(*ast);
 #endif
diff --git a/CppLisp/CppLispInterpreter/Variant.cpp b/CppLisp/CppLispInterpreter/Variant.cpp
index e37244c..077d2e2 100644
--- a/CppLisp/CppLispInterpreter/Variant.cpp
+++ b/CppLisp/CppLispInterpreter/Variant.cpp
@@ -100,6 +100,11 @@ namespace CppLisp
 		}
 	}
 
+	std::shared_ptr<LispVariant> LispVariant::ValueOrNil(std::shared_ptr<LispVariant> result)
+	{
+		return result != null ? result : std::make_shared<LispVariant>(LispType::_Nil);
+	}
+
 	std::shared_ptr<LispVariant> LispVariant::CreateErrorValue(const string & errorMessage)
 	{
 		std::shared_ptr<object> msg = std::make_shared<object>(object(errorMessage));
diff --git a/CppLisp/CppLispInterpreter/Variant.h b/CppLisp/CppLispInterpreter/Variant.h
index bd97a65..55b9ff1 100644
--- a/CppLisp/CppLispInterpreter/Variant.h
+++ b/CppLisp/CppLispInterpreter/Variant.h
@@ -252,6 +252,9 @@ namespace CppLisp
         /// </summary>
         /// <param name="errorMessage">The error message.</param>
         /// <returns>The value</returns>
+		// the result of an evaluation, or nil if the evaluation has given no result
+		/*public*/ static std::shared_ptr<LispVariant> ValueOrNil(std::shared_ptr<LispVariant> result);
+
 		/*public*/ static std::shared_ptr<LispVariant> CreateErrorValue(const string & errorMessage);
 
         //#endregion
diff --git a/CppLisp/CppLispInterpreter/fuel.cpp b/CppLisp/CppLispInterpreter/fuel.cpp
index 3e31d2a..3c3cb25 100644
--- a/CppLisp/CppLispInterpreter/fuel.cpp
+++ b/CppLisp/CppLispInterpreter/fuel.cpp
@@ -341,11 +341,11 @@ namespace CppLisp
 
 		if (macroExpand)
 		{
-			output->WriteLine(string("Macro expand: ") + result->ToString());
+			output->WriteLine(string("Macro expand: ") + LispVariant::ValueOrNil(result)->ToString());
 		}
 		if (trace)
 		{
-			output->WriteLine(string("Result=") + result->ToString());
+			output->WriteLine(string("Result=") + LispVariant::ValueOrNil(result)->ToString());
 		} 
 		if (measureTime)
 		{
-- 
2.43.0


From 09ec87761860342375505762aa28d8fabb9effa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:34 +0000
Subject: [PATCH 22/34] fix: missing or replaced entries of the global scope do
 not crash the interpreter

---
 CppLisp/CppLispInterpreter/Environment.cpp | 99 +++++++++++++++-------
 CppLisp/CppLispInterpreter/Scope.cpp       |  6 ++
 CppLisp/CppLispInterpreter/Scope.h         |  3 +
 3 files changed, 77 insertions(+), 31 deletions(-)

diff --git a/CppLisp/CppLispInterpreter/Environment.cpp b/CppLisp/CppLispInterpreter/Environment.cpp
index 21433f7..3e17230 100644
--- a/CppLisp/CppLispInterpreter/Environment.cpp
+++ b/CppLisp/CppLispInterpreter/Environment.cpp
@@ -132,8 +132,8 @@ static string GetStringRepresentation(const std::vector<std::shared_ptr<object>>
 	}
 	if (scope->ContainsKey(Traceon) && (bool)(*scope)[Traceon])
 	{
-		var buffer = /*(StringBuilder)*/(*scope)[Tracebuffer];
-		string temp = buffer->ToString();
+		auto buffer = /*(StringBuilder)*/scope->find(Tracebuffer);
+		string temp = buffer != scope->end() ? buffer->second->ToString() : string::Empty;
 		temp += text;
 		(*scope)[Tracebuffer] = std::make_shared<object>(temp);
 		//old: buffer.Append(text);
@@ -319,10 +319,17 @@ static std::shared_ptr<LispVariant> DoSearchDocumentation(const std::vector<std:
 		{
 			help += scope->GetFunctionsHelpFormated(item->ToString(), select);
 			// search for functions in all loaded modules
-			auto tempScope = ((*(scope->GlobalScope))[LispEnvironment::Macros])->GetLispScopeRef();
-			for(/*KeyValuePair*/std::pair<string, std::shared_ptr<object>> module : *tempScope)
+			auto tempScope = scope->GlobalScope->FindInnerScope(LispEnvironment::Modules);
+			if (tempScope != null)
 			{
-				help += module.second->GetLispScopeRef()->GetFunctionsHelpFormated(item->ToString(), select);
+				for(/*KeyValuePair*/std::pair<string, std::shared_ptr<object>> module : *tempScope)
+				{
+					auto moduleScope = module.second->GetLispScopeRef();
+					if (moduleScope != null)
+					{
+						help += moduleScope->GetFunctionsHelpFormated(item->ToString(), select);
+					}
+				}
 			}
 		}
 		return DumpDocumentation(scope, [help, scope]() -> void { scope->GlobalScope->Output->WriteLine("{0}", help); });
@@ -391,7 +398,8 @@ static std::shared_ptr<LispVariant> TracePrint(const std::vector<std::shared_ptr
 
 static std::shared_ptr<LispVariant> GetTracePrint(const std::vector<std::shared_ptr<object>> & /*args*/, std::shared_ptr<LispScope> scope)
 {
-	string buffer = (*scope)[Tracebuffer]->ToString(); // var buffer = (StringBuilder)(*scope)[Tracebuffer];
+	auto item = scope->find(Tracebuffer);
+	string buffer = item != scope->end() ? item->second->ToString() : string::Empty; // var buffer = (StringBuilder)(*scope)[Tracebuffer];
 	return std::make_shared<LispVariant>(std::make_shared<object>(buffer));
 }
 
@@ -595,7 +603,11 @@ static std::shared_ptr<LispVariant> Import(const std::vector<std::shared_ptr<obj
 			result = Lisp::Eval(code, importScope, fileName);
 
 			// add new module to modules scope
-			(*(((*(scope->GlobalScope))[LispEnvironment::Modules])->GetLispScopeRef()))[fileName] = std::make_shared<object>(*importScope); // .Add(fileName, importScope);
+			auto modules = scope->GlobalScope->FindInnerScope(LispEnvironment::Modules);
+			if (modules != null)
+			{
+				(*modules)[fileName] = std::make_shared<object>(*importScope); // .Add(fileName, importScope);
+			}
 		}
 	}
 	return result;
@@ -1324,16 +1336,27 @@ static std::shared_ptr<LispVariant> ConvertToString(const std::vector<std::share
 	return std::make_shared<LispVariant>(LispType::_String, std::make_shared<object>(value));
 }
 
+// returns the list of the arguments of the function which is called at the moment
+static std::shared_ptr<object> GetCallArguments(std::shared_ptr<LispScope> scope)
+{
+	auto item = scope->find(ArgsMeta);
+	if (item == scope->end())
+	{
+		throw LispException("No function call for the access to arguments", scope.get());
+	}
+	return item->second;
+}
+
 static std::shared_ptr<LispVariant> ArgsCountFcn(const std::vector<std::shared_ptr<object>> & args, std::shared_ptr<LispScope> scope)
 {
-	return FuelFuncWrapper0<int>(args, scope, "argscount", [scope]() -> int { return (int)(*scope)[ArgsMeta]->ToListRef().Count();  });
+	return FuelFuncWrapper0<int>(args, scope, "argscount", [scope]() -> int { return (int)GetCallArguments(scope)->ToListRef().Count();  });
 }
 
 static std::shared_ptr<LispVariant> ArgsFcn(const std::vector<std::shared_ptr<object>> & args, std::shared_ptr<LispScope> scope)
 {
 	CheckArgs("args", 0, args, scope);
 
-	var array = (*scope)[ArgsMeta]->ToListRef()/*.ToArray()*/;
+	var array = GetCallArguments(scope)->ToListRef()/*.ToArray()*/;
 	return std::make_shared<LispVariant>(std::make_shared<object>(array));
 }
 
@@ -1342,7 +1365,8 @@ static std::shared_ptr<LispVariant> ArgFcn(const std::vector<std::shared_ptr<obj
 	CheckArgs("arg", 1, args, scope);
 
 	var index = args[0]->ToLispVariantRef().IntValue();
-	const IEnumerable<std::shared_ptr<object>> & array = (*scope)[ArgsMeta]->ToListRef();
+	var arguments = GetCallArguments(scope);
+	const IEnumerable<std::shared_ptr<object>> & array = arguments->ToListRef();
 	if (index >= 0 && index < (int)array.size())
 	{
 		return std::make_shared<LispVariant>(array[index]);
@@ -1560,14 +1584,10 @@ static std::shared_ptr<LispVariant> definemacroevaluate_form(const std::vector<s
 {
 	CheckArgs(DefineMacroEval, 3, args, scope);
 
-	auto dict = (*(scope->GlobalScope));
-	if (dict.find(LispEnvironment::Macros) != dict.end())
+	var macros = scope->GlobalScope->FindInnerScope(LispEnvironment::Macros) /*as LispScope*/;
+	if (macros != null)
 	{
-		var macros = dict[LispEnvironment::Macros]->GetLispScopeRef() /*as LispScope*/;
-		if (macros != null)
-		{
-			(*macros)[args[0]->ToString()] = std::make_shared<object>(LispMacroRuntimeEvaluate(std::make_shared<IEnumerable<std::shared_ptr<object>>>(args[1]->ToEnumerableOfObjectRef()), std::make_shared<IEnumerable<std::shared_ptr<object>>>(args[2]->ToEnumerableOfObjectRef())));
-		}
+		(*macros)[args[0]->ToString()] = std::make_shared<object>(LispMacroRuntimeEvaluate(std::make_shared<IEnumerable<std::shared_ptr<object>>>(args[1]->ToEnumerableOfObjectRef()), std::make_shared<IEnumerable<std::shared_ptr<object>>>(args[2]->ToEnumerableOfObjectRef())));
 	}
 
 	return std::make_shared<LispVariant>();
@@ -1580,7 +1600,7 @@ static std::shared_ptr<LispVariant> definemacroexpand_form(const std::vector<std
 {
 	CheckArgs(DefineMacroExpand, 3, args, scope);
 
-	var macros = ((*(scope->GlobalScope))[LispEnvironment::Macros])->GetLispScopeRef();
+	var macros = scope->GlobalScope->FindInnerScope(LispEnvironment::Macros);
 	if (macros != null)
 	{
 		// allow macros in macros --> recursive call for ExpandMacros()
@@ -1616,7 +1636,8 @@ std::shared_ptr<object> UnQuoteIfNeeded(std::shared_ptr<object> item, bool & isS
 			}
 			else
 			{
-				return (*scope)[value.StringValue()];
+				auto symbolValue = scope->find(value.StringValue());
+				return symbolValue != scope->end() ? symbolValue->second : std::make_shared<object>(LispVariant(LispType::_Nil));
 			}
 		}
 	}
@@ -1969,6 +1990,16 @@ static void UpdateDocumentationInformationAtScope(const std::vector<std::shared_
 	scope->UserDoc = std::make_shared<Tuple<string, string>>(signature, documentation);
 }
 
+static LispFunctionWrapper GetGlobalFunction(const string & name, std::shared_ptr<LispScope> scope)
+{
+	auto item = scope->GlobalScope->find(name);
+	if (item == scope->GlobalScope->end())
+	{
+		throw LispException("Function \"" + name + "\" not found", scope.get());
+	}
+	return item->second->ToLispVariantRef().FunctionValue();
+}
+
 static std::shared_ptr<LispVariant> defn_form_helper(const std::vector<std::shared_ptr<object>> & args, std::shared_ptr<LispScope> scope, const string & name)
 {
 	CheckArgs(name, 3, args, scope);
@@ -1979,7 +2010,7 @@ static std::shared_ptr<LispVariant> defn_form_helper(const std::vector<std::shar
 
 	UpdateDocumentationInformationAtScope(args, scope);
 
-	var fn = ((*(scope->GlobalScope))[Fn])->ToLispVariantRef().FunctionValue();
+	var fn = GetGlobalFunction(Fn, scope);
 	scope->UserData = std::make_shared<object>(EvalArgIfNeeded(args[0], scope)->ToString());
 
 	std::vector<std::shared_ptr<object>> tempArgs;
@@ -1987,7 +2018,7 @@ static std::shared_ptr<LispVariant> defn_form_helper(const std::vector<std::shar
 	tempArgs.push_back(args[2]);
 	var resultingFcn = fn.Function(tempArgs, scope);
 
-	var defFcn = ((*(scope->GlobalScope))[name])->ToLispVariantRef().FunctionValue();
+	var defFcn = GetGlobalFunction(name, scope);
 	std::vector<std::shared_ptr<object>> tempArgs2;
 	tempArgs2.push_back(args[0]);
 	tempArgs2.push_back(std::make_shared<object>(*LispVariant::ValueOrNil(resultingFcn)));
@@ -2047,13 +2078,16 @@ bool LispEnvironment::FindFunctionInModules(const string & funcName, std::shared
 {
 	foundValue = null;
 
-	std::shared_ptr<object> importedModules = (*(scope->GlobalScope))[LispEnvironment::Modules];
-	if (importedModules.get() != null)
+	auto tempScope = scope->GlobalScope->FindInnerScope(LispEnvironment::Modules);
+	if (tempScope != null)
 	{
-		auto tempScope = importedModules->GetLispScopeRef();
 		for (/*KeyValuePair*/std::pair<string, std::shared_ptr<object>> kv : *tempScope)
 		{
 			var module = /*(LispScope)*/kv.second->GetLispScopeRef();
+			if (module == null)
+			{
+				continue;
+			}
 			auto item = module->find(funcName);
 			if (item != module->end())
 			{
@@ -2082,10 +2116,10 @@ static bool ExistsItem(std::shared_ptr<object> funcName, std::shared_ptr<LispSco
 {
     if (scope.get() != null)
     {
-		auto item = scope->find(key);
-		if (item != scope->end())
+		auto table = scope->FindInnerScope(key);
+		if (table != null)
 		{
-			return (*item).second->GetLispScopeRef()->ContainsKey(funcName->ToString());
+			return table->ContainsKey(funcName->ToString());
 		}
     }
     return false;
@@ -2159,11 +2193,14 @@ static std::shared_ptr<object> QueryItem(std::shared_ptr<object> funcName, LispS
 
 /*private static*/ std::shared_ptr<object> LispEnvironment::QueryItem(std::shared_ptr<object> funcName, std::shared_ptr<LispScope> scope, const string & key)
 {
-	if (scope != null &&
-		scope->ContainsKey(key) &&
-		((*scope)[key])->GetLispScopeRef()->ContainsKey(funcName->ToString()))
+	auto table = scope != null ? scope->FindInnerScope(key) : null;
+	if (table != null)
 	{
-		return (*((*scope)[key])->GetLispScopeRef())[funcName->ToString()];
+		auto item = table->find(funcName->ToString());
+		if (item != table->end())
+		{
+			return item->second;
+		}
 	}
 	return null;
 }
diff --git a/CppLisp/CppLispInterpreter/Scope.cpp b/CppLisp/CppLispInterpreter/Scope.cpp
index 72b9c17..68a8fe1 100644
--- a/CppLisp/CppLispInterpreter/Scope.cpp
+++ b/CppLisp/CppLispInterpreter/Scope.cpp
@@ -135,6 +135,12 @@ namespace CppLisp
 		return result;
 	}
 
+	LispScope * LispScope::FindInnerScope(const string & name) const
+	{
+		auto item = find(name);
+		return item != end() ? item->second->GetLispScopeRef() : null;
+	}
+
 	void LispScope::SetInScopes(const string & symbolName, std::shared_ptr<object> value)
 	{
 		std::shared_ptr<LispScope> foundClosureScope;
diff --git a/CppLisp/CppLispInterpreter/Scope.h b/CppLisp/CppLispInterpreter/Scope.h
index 0acb321..1bd9ce6 100644
--- a/CppLisp/CppLispInterpreter/Scope.h
+++ b/CppLisp/CppLispInterpreter/Scope.h
@@ -194,6 +194,9 @@ namespace CppLisp
 
         //#region public methods
 
+		// returns the scope stored with the given name in this scope, or null if there is none
+		/*public*/ LispScope * FindInnerScope(const string & name) const;
+
         /*public*/ inline void PushNextScope(std::shared_ptr<LispScope> nextScope)
         {
             Next = nextScope;
-- 
2.43.0


From 7cb5342048af18e6dbfa3bfe7366fe54fd48b8c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:41 +0000
Subject: [PATCH 23/34] fix: the debugger does not crash for a function without
 a current token

---
 CppLisp/CppLispDebugger/Debugger.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/CppLisp/CppLispDebugger/Debugger.cpp b/CppLisp/CppLispDebugger/Debugger.cpp
index 13a2a82..cd44522 100644
--- a/CppLisp/CppLispDebugger/Debugger.cpp
+++ b/CppLisp/CppLispDebugger/Debugger.cpp
@@ -272,10 +272,12 @@ namespace CppLisp
 		if (currentAst != null && currentAst->size() > 0)
 		{
 			var lineNumber = initialTopScope != null ? initialTopScope->CurrentLineNo() : 0;
-			var startPos = initialTopScope != null ? initialTopScope->CurrentToken->StartPos : 0;
-			var stopPos = initialTopScope != null ? initialTopScope->CurrentToken->StopPos : 0;
+			// the scope of a function has no token until the first expression is evaluated
+			var token = initialTopScope != null ? initialTopScope->CurrentToken : null;
+			var startPos = token != null ? token->StartPos : 0;
+			var stopPos = token != null ? token->StopPos : 0;
 			var moduleName = initialTopScope != null ? initialTopScope->ModuleName : "?";
-			var tokenTxt = initialTopScope != null ? initialTopScope->CurrentToken->ToString() : "?";
+			var tokenTxt = token != null ? token->ToString() : "?";
 			Output->WriteLine("--> " + (*((*currentAst).begin()))->ToString()/*[0]*/ + " line=" + std::to_string((int)lineNumber) + " start=" + std::to_string((int)startPos) + " stop=" + std::to_string((int)stopPos) + " module=" + moduleName + " token=" + tokenTxt);
 		}
 		InteractiveLoop(this, initialTopScope, startedFromMain, tracing, outp, inp);
-- 
2.43.0


From c2a1be3de637d41988a85b4553000487a0d0b198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:42 +0000
Subject: [PATCH 24/34] fix: a macro definition as the expression of a compile
 time macro does not crash the interpreter

---
 CppLisp/CppLispInterpreter/Environment.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/CppLisp/CppLispInterpreter/Environment.cpp b/CppLisp/CppLispInterpreter/Environment.cpp
index 3e17230..e261c98 100644
--- a/CppLisp/CppLispInterpreter/Environment.cpp
+++ b/CppLisp/CppLispInterpreter/Environment.cpp
@@ -1605,7 +1605,13 @@ static std::shared_ptr<LispVariant> definemacroexpand_form(const std::vector<std
 	{
 		// allow macros in macros --> recursive call for ExpandMacros()
 		std::shared_ptr<object> result = LispInterpreter::ExpandMacros(std::make_shared<object>(*LispEnvironment::GetExpression(args[2])), scope);
-		(*macros)[args[0]->ToString()] = std::make_shared<object>(LispMacroCompileTimeExpand(LispEnvironment::GetExpression(args[1]), std::make_shared<IEnumerable<std::shared_ptr<object>>>(result->ToEnumerableOfObjectRef())));
+		// a definition of a macro as the expression of a macro is removed in the expand phase --> nothing is left
+		var expression = std::make_shared<IEnumerable<std::shared_ptr<object>>>();
+		if (result != null)
+		{
+			*expression = result->ToEnumerableOfObjectRef();
+		}
+		(*macros)[args[0]->ToString()] = std::make_shared<object>(LispMacroCompileTimeExpand(LispEnvironment::GetExpression(args[1]), expression));
 	}
 
 	return std::make_shared<LispVariant>();
-- 
2.43.0


From 2ec81ae5f837ef0cb69f4121c34530e9845ae926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:18 +0000
Subject: [PATCH 25/34] fix: a comment ends at the end of its line, also when
 it is empty or the last line

An empty comment (a semicolon followed by a line break) swallowed the rest of
the program, and a comment that the program ends with was read as code.
---
 CppLisp/CppLispInterpreter/Tokenizer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CppLisp/CppLispInterpreter/Tokenizer.cpp b/CppLisp/CppLispInterpreter/Tokenizer.cpp
index 902e666..b6ad532 100644
--- a/CppLisp/CppLispInterpreter/Tokenizer.cpp
+++ b/CppLisp/CppLispInterpreter/Tokenizer.cpp
@@ -208,7 +208,7 @@ namespace CppLisp
 	{
 		string rest = code.Substring(i);
 		size_t pos = rest.IndexOf("\n", "StringComparison.InvariantCulture");
-		if (pos > 0)
+		if (pos != string::npos)
 		{
 			newIndex = i + pos;
 			return rest.Substring(0, pos + 1);
-- 
2.43.0


From 6b58a9b652c2c2f7d1ea04a77386a8a7bc37bc1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:54 +0000
Subject: [PATCH 26/34] fix: (search text in pos len) looks at the len
 characters from pos on

The length was handed to std::string::find as the number of characters of the
searched text to compare, which reads behind the end of that text.
---
 CppLisp/CppLispInterpreter/csstring.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/CppLisp/CppLispInterpreter/csstring.h b/CppLisp/CppLispInterpreter/csstring.h
index 2545b73..b3dd3c4 100644
--- a/CppLisp/CppLispInterpreter/csstring.h
+++ b/CppLisp/CppLispInterpreter/csstring.h
@@ -160,7 +160,9 @@ namespace CppLisp
 
 		inline size_t IndexOf(const string & txt, size_t offset, size_t count) const
 		{
-			return find(txt.c_str(), offset, count);
+			// only matches that lie within the count characters starting at the offset
+			size_t pos = find(txt, offset);
+			return pos != npos && txt.size() <= count && pos - offset <= count - txt.size() ? pos : npos;
 		}
 
 		inline void Append(const string & txt)
-- 
2.43.0


From a9168c33e92c9119379fbd6551983315636e9662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:19 +0000
Subject: [PATCH 27/34] fix: or stops at the first true argument

---
 CppLisp/CppLispInterpreter/Environment.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CppLisp/CppLispInterpreter/Environment.cpp b/CppLisp/CppLispInterpreter/Environment.cpp
index e261c98..7222a75 100644
--- a/CppLisp/CppLispInterpreter/Environment.cpp
+++ b/CppLisp/CppLispInterpreter/Environment.cpp
@@ -1527,7 +1527,7 @@ static std::shared_ptr<LispVariant> bool_operation_form(const std::vector<std::s
 		else
 		{
 			// process or
-			if (!result)
+			if (result)
 			{
 				break;
 			}
-- 
2.43.0


From af94bd601cdf2c835cefe54920554b5026bacbdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:19 +0000
Subject: [PATCH 28/34] fix: quasiquote processes lists of two elements

---
 CppLisp/CppLispInterpreter/Environment.cpp | 34 ++++++++++------------
 1 file changed, 15 insertions(+), 19 deletions(-)

diff --git a/CppLisp/CppLispInterpreter/Environment.cpp b/CppLisp/CppLispInterpreter/Environment.cpp
index 7222a75..5b4a259 100644
--- a/CppLisp/CppLispInterpreter/Environment.cpp
+++ b/CppLisp/CppLispInterpreter/Environment.cpp
@@ -1710,34 +1710,30 @@ static std::shared_ptr<object> ProcessQuotedSExpression(const IEnumerable<std::s
 				return std::make_shared<object>(*evalResult);
 			}
 		}
-		result.Add(item1);
-		result.Add(item2);
 	}
-	else
+
+	// the unquoted code may change the list
+	const IEnumerable<std::shared_ptr<object>> elements = expr;
+	for (var itm : elements)
 	{
-		// the unquoted code may change the list
-		const IEnumerable<std::shared_ptr<object>> elements = expr;
-		for (var itm : elements)
+		if (itm->IsIEnumerableOfObject() || itm->IsList())
 		{
-			if (itm->IsIEnumerableOfObject() || itm->IsList())
+			bool tempSplicing = false;
+			var res = ProcessQuotedSExpression(itm->IsIEnumerableOfObject() ? itm->ToEnumerableOfObjectRef() : itm->ToListRef(), scope, /*out*/ tempSplicing);
+			if (tempSplicing)
 			{
-				bool tempSplicing = false;
-				var res = ProcessQuotedSExpression(itm->IsIEnumerableOfObject() ? itm->ToEnumerableOfObjectRef() : itm->ToListRef(), scope, /*out*/ tempSplicing);
-				if (tempSplicing)
-				{
-					const LispVariant & variant = res->ToLispVariantRef();
-					result.AddRange(variant.ListValueRef());
-				}
-				else
-				{
-					result.Add(res);
-				}
+				const LispVariant & variant = res->ToLispVariantRef();
+				result.AddRange(variant.ListValueRef());
 			}
 			else
 			{
-				result.Add(itm);
+				result.Add(res);
 			}
 		}
+		else
+		{
+			result.Add(itm);
+		}
 	}
 	return std::make_shared<object>(result);
 }
-- 
2.43.0


From 1e6a6e8a5194e27c2d94ef05dd7cb1653886bbc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:19 +0000
Subject: [PATCH 29/34] fix: File-WriteAllText reports text that could not be
 written out

---
 CppLisp/CppLispInterpreter/Environment.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/CppLisp/CppLispInterpreter/Environment.cpp b/CppLisp/CppLispInterpreter/Environment.cpp
index 5b4a259..371c22a 100644
--- a/CppLisp/CppLispInterpreter/Environment.cpp
+++ b/CppLisp/CppLispInterpreter/Environment.cpp
@@ -116,6 +116,8 @@ bool WriteTextFile(const std::string & fileName, const std::string & content)
 {
 	std::ofstream ofs(fileName);
 	ofs << content;
+	// the text is written out at the latest here, this may fail
+	ofs.close();
 	return ofs.good();
 }
 
-- 
2.43.0


From 7298ddfc22a96a33be821aa4e42485c8f245e87a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:19 +0000
Subject: [PATCH 30/34] fix: total order of the keys of a dictionary

---
 CppLisp/CppLispInterpreter/Variant.cpp | 46 ++++++++++++++++++++++++++
 CppLisp/CppLispInterpreter/csobject.h  | 13 ++++++++
 2 files changed, 59 insertions(+)

diff --git a/CppLisp/CppLispInterpreter/Variant.cpp b/CppLisp/CppLispInterpreter/Variant.cpp
index 077d2e2..b222c2c 100644
--- a/CppLisp/CppLispInterpreter/Variant.cpp
+++ b/CppLisp/CppLispInterpreter/Variant.cpp
@@ -820,3 +820,49 @@ namespace CppLisp
 		return !(*this == other);
 	}
 }
+
+// rank of the kind of a key: keys of different ranks are never equal
+static int GetKeyRank(const CppLisp::LispVariant & key)
+{
+	if (key.IsString() || key.IsSymbol())
+	{
+		return 0;
+	}
+	if (key.IsNumber())
+	{
+		return 1;
+	}
+	if (key.IsBool())
+	{
+		return 2;
+	}
+	return key.IsNil() ? 3 : 4;
+}
+
+bool std::less<CppLisp::LispVariant>::operator()(const CppLisp::LispVariant & l, const CppLisp::LispVariant & r) const
+{
+	const int rank = GetKeyRank(l);
+	if (rank != GetKeyRank(r))
+	{
+		return rank < GetKeyRank(r);
+	}
+	switch (rank)
+	{
+		case 0:
+			return l.ToString() < r.ToString();
+		case 1:
+		{
+			const double left = l.ToDouble();
+			const double right = r.ToDouble();
+			// not a number is less than every number
+			return left < right || (left != left && right == right);
+		}
+		case 2:
+			return !l.BoolValue() && r.BoolValue();
+		case 3:
+			return false;
+		default:
+			// all other values are different keys
+			return l.Value.get() < r.Value.get();
+	}
+}
diff --git a/CppLisp/CppLispInterpreter/csobject.h b/CppLisp/CppLispInterpreter/csobject.h
index ef88ab0..f1c49f6 100644
--- a/CppLisp/CppLispInterpreter/csobject.h
+++ b/CppLisp/CppLispInterpreter/csobject.h
@@ -55,7 +55,20 @@ namespace CppLisp
 	struct LispFunctionWrapper;
 	class LispMacroRuntimeEvaluate;
 	class LispMacroCompileTimeExpand;
+}
 
+namespace std
+{
+	// total order of the keys of a dictionary
+	template <>
+	struct less<CppLisp::LispVariant>
+	{
+		bool operator()(const CppLisp::LispVariant & l, const CppLisp::LispVariant & r) const;
+	};
+}
+
+namespace CppLisp
+{
     /// <summary>
     /// Lisp data types.
     /// </summary>
-- 
2.43.0


From 6cd6ab0d7369e4306c7870a159132fbc963e6a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:12 +0000
Subject: [PATCH 31/34] fix: the remainder of something that is no number is an
 error for every divisor

---
 CppLisp/CppLispInterpreter/Variant.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/CppLisp/CppLispInterpreter/Variant.cpp b/CppLisp/CppLispInterpreter/Variant.cpp
index b222c2c..1c79156 100644
--- a/CppLisp/CppLispInterpreter/Variant.cpp
+++ b/CppLisp/CppLispInterpreter/Variant.cpp
@@ -463,8 +463,9 @@ namespace CppLisp
 		}
 		if (IsInt() || r.IsInt())
 		{
+			const int dividend = ToInt();
 			const int divisor = CheckDivisor(r.ToInt());
-			return /*new*/ LispVariant(std::make_shared<object>(divisor == -1 ? 0 : ToInt() % divisor));
+			return /*new*/ LispVariant(std::make_shared<object>(divisor == -1 ? 0 : dividend % divisor));
 		}
 		throw CreateInvalidOperationException("%", *this, r);
 	}
-- 
2.43.0


From 10e5bdf931a33419a3ee742df535bb264c2d8ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:41 +0000
Subject: [PATCH 32/34] fix: a semicolon in a string does not start a new line

---
 CppLisp/CppLispInterpreter/Tokenizer.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/CppLisp/CppLispInterpreter/Tokenizer.cpp b/CppLisp/CppLispInterpreter/Tokenizer.cpp
index b6ad532..bb5f0c3 100644
--- a/CppLisp/CppLispInterpreter/Tokenizer.cpp
+++ b/CppLisp/CppLispInterpreter/Tokenizer.cpp
@@ -112,8 +112,11 @@ namespace CppLisp
 					i = ProcessComment(code, i, lineCount, ch, addToken);
 				}
 				wasLastBackslash = false;
-				// comment ends always with new line
-				lineCount++;
+				if (!isInString)
+				{
+					// comment ends always with new line
+					lineCount++;
+				}
 			}
 			else if (ch == '\'' || ch == '`' || ch == ',')
 			{
-- 
2.43.0


From 7b2dbeb73cb2323bc8fe60c0e71e096ba531b0bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:41 +0000
Subject: [PATCH 33/34] fix: the text before a quote or a string is not lost by
 the tokenizer

---
 CppLisp/CppLispInterpreter/Tokenizer.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/CppLisp/CppLispInterpreter/Tokenizer.cpp b/CppLisp/CppLispInterpreter/Tokenizer.cpp
index bb5f0c3..346bf14 100644
--- a/CppLisp/CppLispInterpreter/Tokenizer.cpp
+++ b/CppLisp/CppLispInterpreter/Tokenizer.cpp
@@ -71,6 +71,7 @@ namespace CppLisp
 			{
 				if (wasLastBackslash)
 				{
+					isInSymbol = !isInString;
 					currentToken += ch;
 					wasLastBackslash = false;
 				}
@@ -126,6 +127,10 @@ namespace CppLisp
 				}
 				else
 				{
+					if (isInSymbol)
+					{
+						addToken(currentToken, i, lineCount);
+					}
 					if (code[i + 1] == '@')
 					{
 						// process unquotesplicing
@@ -146,6 +151,7 @@ namespace CppLisp
 			{
 				if (wasLastBackslash)
 				{
+					isInSymbol = !isInString;
 					currentToken += ch;
 				}
 				else if (isInString)
@@ -155,6 +161,10 @@ namespace CppLisp
 				}
 				else
 				{
+					if (isInSymbol)
+					{
+						addToken(currentToken, i, lineCount);
+					}
 					// start string
 					isInString = true;
 					currentToken = string::Empty;
-- 
2.43.0


From 4d24cc1d23b62cb50ba6b87992869e8b60ffd8a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:20 +0000
Subject: [PATCH 34/34] fix: a breakpoint whose condition does not hold hides
 no other one at its line

---
 CppLisp/CppLispDebugger/Debugger.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/CppLisp/CppLispDebugger/Debugger.cpp b/CppLisp/CppLispDebugger/Debugger.cpp
index cd44522..cb4aa97 100644
--- a/CppLisp/CppLispDebugger/Debugger.cpp
+++ b/CppLisp/CppLispDebugger/Debugger.cpp
@@ -358,7 +358,9 @@ namespace CppLisp
 
 	bool LispDebugger::HitsBreakpoint(size_t lineNo, const string & moduleName, std::shared_ptr<LispScope> scope)
 	{
-		for (var breakpoint : Breakpoints)
+		// a condition can change the breakpoints
+		const var breakpoints = Breakpoints;
+		for (var breakpoint : breakpoints)
 		{
 			bool isSameModule = IsSameModule(breakpoint.ModuleName, scope != null ? scope->ModuleName : moduleName);
 			if (isSameModule && (lineNo == breakpoint.LineNo))
@@ -370,13 +372,17 @@ namespace CppLisp
 						LispEvalContext context(*scope);
 						RestoreAtExit<bool> restoreReturn(scope->IsInReturn);
 						std::shared_ptr<LispVariant> result = Lisp::Eval(breakpoint.Condition, scope, scope->ModuleName);
-						return LispVariant::ValueOrNil(result)->BoolValue();
+						if (LispVariant::ValueOrNil(result)->BoolValue())
+						{
+							return true;
+						}
 					}
 					catch (...)
 					{
 						Output->WriteLine("Error: bad condition for line {0}: {1}", std::to_string(breakpoint.LineNo), breakpoint.Condition);
-						return false;
 					}
+					// there may be other breakpoints at this position
+					continue;
 				}
 				return true;
 			}
-- 
2.43.0

