From cc524e8ca4f79c84c10a0fd00eeacbc94412b82c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:12 +0000
Subject: [PATCH 01/53] fix: keep the derived exception when an error leaves a
 function call

---
 CppLisp/CppLispInterpreter/Environment.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/CppLisp/CppLispInterpreter/Environment.cpp b/CppLisp/CppLispInterpreter/Environment.cpp
index 34854b6..8d795c4 100644
--- a/CppLisp/CppLispInterpreter/Environment.cpp
+++ b/CppLisp/CppLispInterpreter/Environment.cpp
@@ -1849,10 +1849,10 @@ std::shared_ptr<LispVariant> fn_form(const std::vector<std::shared_ptr<object>>
 		{
 			ret = LispInterpreter:: EvalAst(args[1], childScope);
 		}
-		catch (LispStopDebuggerException & exc)
+		catch (LispStopDebuggerException &)
 		{
 			// forward a debugger stop exception to stop the debugger loop
-			throw exc;
+			throw;
 		}
 		catch (LispExceptionBase & ex)
 		{
@@ -1869,7 +1869,8 @@ std::shared_ptr<LispVariant> fn_form(const std::vector<std::shared_ptr<object>>
 				debugger->InteractiveLoop(/*initialTopScope: */childScope, /*currentAst :*/ /*(IEnumerable<object>)*/std::make_shared<IEnumerable<std::shared_ptr<object>>>(args[1]->ToEnumerableOfObjectRef()) /*new List<object> { info.Item2 }*/);
 			}
 
-			throw ex;
+			// rethrow the original exception (a copy would lose the data of derived exceptions)
+			throw;
 		}
 		localScope->PopNextScope();
 		return ret;
-- 
2.43.0


From 5cb0ba9eb69d791d183f04218bcfca7f2458b8ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:35 +0000
Subject: [PATCH 02/53] fix: or stops at the first true operand, not at the
 first false one

---
 CppLisp/CppLispInterpreter/Environment.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CppLisp/CppLispInterpreter/Environment.cpp b/CppLisp/CppLispInterpreter/Environment.cpp
index 8d795c4..8c278b8 100644
--- a/CppLisp/CppLispInterpreter/Environment.cpp
+++ b/CppLisp/CppLispInterpreter/Environment.cpp
@@ -1487,7 +1487,7 @@ static std::shared_ptr<LispVariant> bool_operation_form(const std::vector<std::s
 		else
 		{
 			// process or
-			if (!result)
+			if (result)
 			{
 				break;
 			}
-- 
2.43.0


From 0f30f25f834bfde62591648173d5962a10625cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:37 +0000
Subject: [PATCH 03/53] fix: number literals out of range no longer escape as a
 native exception

---
 CppLisp/CppLispInterpreter/Token.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/CppLisp/CppLispInterpreter/Token.cpp b/CppLisp/CppLispInterpreter/Token.cpp
index be1e978..7d521bd 100644
--- a/CppLisp/CppLispInterpreter/Token.cpp
+++ b/CppLisp/CppLispInterpreter/Token.cpp
@@ -54,6 +54,10 @@ namespace CppLisp
 		{
 			return false;
 		}
+		catch (const std::out_of_range &)
+		{
+			return false;
+		}
 	}
 
 	bool Double_TryParse(const string & txt, const string & /*NumberStyles_Any*/, const string & /*CultureInfo_InvariantCulture*/, double & doubleValue)
@@ -72,6 +76,10 @@ namespace CppLisp
 		{
 			return false;
 		}
+		catch (const std::out_of_range &)
+		{
+			return false;
+		}
 	}
 
 	LispToken::LispToken(const string & text, size_t start, size_t stop, size_t lineNo)
-- 
2.43.0


From 657826a0e282c539175a60516a10b1bde1f13a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:39 +0000
Subject: [PATCH 04/53] fix: an empty comment line no longer swallows the rest
 of the code

---
 CppLisp/CppLispInterpreter/Tokenizer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CppLisp/CppLispInterpreter/Tokenizer.cpp b/CppLisp/CppLispInterpreter/Tokenizer.cpp
index 902e666..b6ad532 100644
--- a/CppLisp/CppLispInterpreter/Tokenizer.cpp
+++ b/CppLisp/CppLispInterpreter/Tokenizer.cpp
@@ -208,7 +208,7 @@ namespace CppLisp
 	{
 		string rest = code.Substring(i);
 		size_t pos = rest.IndexOf("\n", "StringComparison.InvariantCulture");
-		if (pos > 0)
+		if (pos != string::npos)
 		{
 			newIndex = i + pos;
 			return rest.Substring(0, pos + 1);
-- 
2.43.0


From b1902100043aa6dd547cfc3e5f6b8f3368ce2d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:58 +0000
Subject: [PATCH 05/53] fix: stacked and dangling quote marks and surplus
 brackets no longer crash the parser

---
 CppLisp/CppLispInterpreter/Parser.cpp | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/CppLisp/CppLispInterpreter/Parser.cpp b/CppLisp/CppLispInterpreter/Parser.cpp
index 79e31d8..2894503 100644
--- a/CppLisp/CppLispInterpreter/Parser.cpp
+++ b/CppLisp/CppLispInterpreter/Parser.cpp
@@ -72,6 +72,10 @@ namespace CppLisp
 			else if (token->Type == LispTokenType::ListEnd)
 			{
 				var temp = current;
+				if (listStack.size() == 0)
+				{
+					throw LispException(BracketsOutOfBalance, token, moduleName);
+				}
 				listStack.pop();
 				if (listStack.size() > 0)
 				{
@@ -95,12 +99,21 @@ namespace CppLisp
 
 				std::shared_ptr<object> quotedList = null;
 				i = ParseTokens(moduleName, tokens, i + 1, /*ref*/ quotedList, /*isToplevel:*/ false);
+				if (quotedList == null)
+				{
+					throw LispException(BracketsOutOfBalance, token, moduleName);
+				}
 				quote->push_back/*Add*/(std::make_shared<object>(object(*quotedList)));
 
 				if (current != null)
 				{
 					current->push_back/*Add*/(std::make_shared<object>(object(*quote)));
 				}
+				else if (!isToplevel)
+				{
+					parseResult = std::make_shared<object>(*quote);
+					return i;
+				}
 			}
 			else if (token->Type == LispTokenType::UnQuote || token->Type == LispTokenType::UnQuoteSplicing)
 			{
@@ -110,6 +123,10 @@ namespace CppLisp
 
 				std::shared_ptr<object> quotedList = null;
 				i = ParseTokens(moduleName, tokens, i + 1, /*ref*/ quotedList, /*isToplevel:*/ false);
+				if (quotedList == null)
+				{
+					throw LispException(BracketsOutOfBalance, token, moduleName);
+				}
 				unquote->push_back/*Add*/(quotedList);
 
 				if (current != null)
@@ -118,6 +135,10 @@ namespace CppLisp
 				}
 				else
 				{
+					if (isToplevel && i + 1<tokens.size() && !OnlyCommentTokensFrom(tokens, i + 1))
+					{
+						throw LispException(BracketsOutOfBalanceOrUnexpectedScriptCode, token, moduleName);
+					}
 					parseResult = std::make_shared<object>(*unquote);
 					return i;
 				}
@@ -147,7 +168,10 @@ namespace CppLisp
 			throw LispException(BracketsOutOfBalance, token, moduleName);
 		}
 
-		parseResult = std::make_shared<object>(*current);
+		if (current != null)
+		{
+			parseResult = std::make_shared<object>(*current);
+		}
 		return i;
 	}
 
-- 
2.43.0


From 2e7d2eed263ca1f52e67545d7bef476ae3874bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:36 +0000
Subject: [PATCH 06/53] fix: a quoted expression at top level is no longer
 dropped by the parser

---
 CppLisp/CppLispInterpreter/Parser.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/CppLisp/CppLispInterpreter/Parser.cpp b/CppLisp/CppLispInterpreter/Parser.cpp
index 2894503..3feeba5 100644
--- a/CppLisp/CppLispInterpreter/Parser.cpp
+++ b/CppLisp/CppLispInterpreter/Parser.cpp
@@ -109,8 +109,12 @@ namespace CppLisp
 				{
 					current->push_back/*Add*/(std::make_shared<object>(object(*quote)));
 				}
-				else if (!isToplevel)
+				else
 				{
+					if (isToplevel && i + 1<tokens.size() && !OnlyCommentTokensFrom(tokens, i + 1))
+					{
+						throw LispException(BracketsOutOfBalanceOrUnexpectedScriptCode, token, moduleName);
+					}
 					parseResult = std::make_shared<object>(*quote);
 					return i;
 				}
-- 
2.43.0


From e81460718a461b474a5d1522972580e17b2fabf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:59 +0000
Subject: [PATCH 07/53] fix: list and string positions out of range are
 reported instead of accessing foreign memory

---
 CppLisp/CppLispInterpreter/Environment.cpp | 34 +++++++++++++++++-----
 1 file changed, 26 insertions(+), 8 deletions(-)

diff --git a/CppLisp/CppLispInterpreter/Environment.cpp b/CppLisp/CppLispInterpreter/Environment.cpp
index 8c278b8..86044b0 100644
--- a/CppLisp/CppLispInterpreter/Environment.cpp
+++ b/CppLisp/CppLispInterpreter/Environment.cpp
@@ -167,6 +167,14 @@ static void CheckOptionalArgs(const string & name, size_t minCount, size_t maxCo
 	}
 }
 
+static void CheckIndex(const string & name, int index, size_t count, std::shared_ptr<LispScope> scope)
+{
+	if (index < 0 || (size_t)index >= count)
+	{
+		throw LispException(string::Format("Index out of range in {0} (index={1} max={2})", name, std::to_string(index), std::to_string(count)), scope.get());
+	}
+}
+
 template <class T1>
 static std::shared_ptr<LispVariant> FuelFuncWrapper0(const std::vector<std::shared_ptr<object>> & args, std::shared_ptr<LispScope> scope, const string & func_name, std::function<T1()> func)
 {
@@ -820,8 +828,9 @@ static std::shared_ptr<LispVariant> Slice(const std::vector<std::shared_ptr<obje
 	CheckArgs("slice", 3, args, scope);
 
 	var value = ((LispVariant)args[0]).ToString();
-	var startPos = (size_t)((LispVariant)args[1]).ToInt();
+	var startPos = ((LispVariant)args[1]).ToInt();
 	var len = ((LispVariant)args[2]).ToInt();
+	CheckIndex("slice", startPos, value.size() + 1, scope);
 	if (len >= 0)
 	{
 		value = value.Substring(startPos, (size_t)len);
@@ -1101,10 +1110,11 @@ static std::shared_ptr<LispVariant> First(const std::vector<std::shared_ptr<obje
 		std::shared_ptr<object> listValue = args[0];
 
 		std::function<void(std::shared_ptr<object>)> action = 
-			[listValue](std::shared_ptr<object> newValue) -> void
+			[listValue, scope](std::shared_ptr<object> newValue) -> void
 			{ 
 				var vl = listValue->ToLispVariantNotConstRef();
 				IEnumerable<std::shared_ptr<object>> & container = vl.ListValueNotConstRef();
+				CheckIndex("first", 0, container.Count(), scope);
 				container[0] = newValue;
 			};
 
@@ -1113,6 +1123,7 @@ static std::shared_ptr<LispVariant> First(const std::vector<std::shared_ptr<obje
 	else
 	{
 		const IEnumerable<std::shared_ptr<object>> & elements = val.ListValueRef();
+		CheckIndex("first", 0, elements.Count(), scope);
 		return std::make_shared<LispVariant>(elements.First());
 	}
 }
@@ -1124,6 +1135,7 @@ static std::shared_ptr<LispVariant> Last(const std::vector<std::shared_ptr<objec
 	const LispVariant & val = args[0]->ToLispVariantRef();
 	if (val.IsString())
 	{
+		CheckIndex("last", (int)val.StringValue().size() - 1, val.StringValue().size(), scope);
 		return std::make_shared<LispVariant>(std::make_shared<object>(val.StringValue().Substring(val.StringValue().size() - 1)));
 	}
 	if (scope->NeedsLValue)
@@ -1131,10 +1143,11 @@ static std::shared_ptr<LispVariant> Last(const std::vector<std::shared_ptr<objec
 		std::shared_ptr<object> listValue = args[0];
 
 		std::function<void(std::shared_ptr<object>)> action =
-			[listValue](std::shared_ptr<object> newValue) -> void
+			[listValue, scope](std::shared_ptr<object> newValue) -> void
 		{
 			var vl = listValue->ToLispVariantNotConstRef();
 			IEnumerable<std::shared_ptr<object>> & container = vl.ListValueNotConstRef();
+			CheckIndex("last", (int)container.Count() - 1, container.Count(), scope);
 			container[container.Count()-1] = newValue;
 		};
 
@@ -1143,6 +1156,7 @@ static std::shared_ptr<LispVariant> Last(const std::vector<std::shared_ptr<objec
 	else
 	{
 		const IEnumerable<std::shared_ptr<object>> & elements = val.ListValueRef();
+		CheckIndex("last", (int)elements.Count() - 1, elements.Count(), scope);
 		return std::make_shared<LispVariant>(elements.Last());
 	}
 }
@@ -1154,20 +1168,22 @@ static std::shared_ptr<LispVariant> Rest(const std::vector<std::shared_ptr<objec
 	const LispVariant & val = args[0]->ToLispVariantRef();
 	if (val.IsString())
 	{
+		CheckIndex("rest", 0, val.StringValue().size(), scope);
 		return std::make_shared<LispVariant>(std::make_shared<object>(val.StringValue().Substring(1)));
 	}
 	IEnumerable<std::shared_ptr<object>> elements = val.ListValueRef();
-	return std::make_shared<LispVariant>(std::make_shared<object>(elements.Skip(1)));
+	return std::make_shared<LispVariant>(std::make_shared<object>(elements.Count() > 0 ? elements.Skip(1) : elements));
 }
 
 static std::shared_ptr<LispVariant> Nth(const std::vector<std::shared_ptr<object>> & args, std::shared_ptr<LispScope> scope)
 {
 	CheckArgs("nth", 2, args, scope);
 
-	var index = (size_t)args[0]->ToLispVariantRef().IntValue();
+	var index = args[0]->ToLispVariantRef().IntValue();
 	const LispVariant & val = args[1]->ToLispVariantRef();
 	if (val.IsString())
 	{
+		CheckIndex("nth", index, val.StringValue().size(), scope);
 		return std::make_shared<LispVariant>(std::make_shared<object>(val.StringValue().Substring(index, 1)));
 	}
 	if (scope->NeedsLValue)
@@ -1175,10 +1191,11 @@ static std::shared_ptr<LispVariant> Nth(const std::vector<std::shared_ptr<object
 		std::shared_ptr<object> listValue = args[1];
 
 		std::function<void(std::shared_ptr<object>)> action =
-			[listValue,index](std::shared_ptr<object> newValue) -> void
+			[listValue, index, scope](std::shared_ptr<object> newValue) -> void
 		{
 			var vl = listValue->ToLispVariantNotConstRef();
 			IEnumerable<std::shared_ptr<object>> & container = vl.ListValueNotConstRef();
+			CheckIndex("nth", index, container.Count(), scope);
 			container[index] = newValue;
 		};
 
@@ -1187,6 +1204,7 @@ static std::shared_ptr<LispVariant> Nth(const std::vector<std::shared_ptr<object
 	else
 	{
 		const IEnumerable<std::shared_ptr<object>> & elements = val.ListValueRef();
+		CheckIndex("nth", index, elements.Count(), scope);
 		return std::make_shared<LispVariant>(elements.ElementAt(index));
 	}
 }
@@ -1201,7 +1219,7 @@ static std::shared_ptr<LispVariant> Push(const std::vector<std::shared_ptr<objec
 	if (list.IsList())
 	{
 		IEnumerable<std::shared_ptr<object>> & elements = list.ListValueNotConstRef();
-		if (pos < (int)elements.Count())
+		if (pos >= 0 && pos < (int)elements.Count())
 		{
 			elements.Insert(pos, std::make_shared<object>(val));
 			return std::make_shared<LispVariant>(LispVariant(std::make_shared<object>(elements)));
@@ -1223,7 +1241,7 @@ static std::shared_ptr<LispVariant> Pop(const std::vector<std::shared_ptr<object
 	if (list.IsList())
 	{
 		IEnumerable<std::shared_ptr<object>> & elements = list.ListValueNotConstRef();
-		if (pos < (int)elements.Count())
+		if (pos >= 0 && pos < (int)elements.Count())
 		{
 			var elem = elements.ElementAt(pos);
 			elements.RemoveAt(pos);
-- 
2.43.0


From 669b9b388a46ba3184b2715019b984b4d3a5ec11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:04 +0000
Subject: [PATCH 08/53] fix: using the missing value of an expression gives the
 undefined value instead of a null pointer access

---
 CppLisp/CppLispInterpreter/Environment.cpp | 31 +++++++++++-----------
 CppLisp/CppLispInterpreter/Interpreter.cpp | 10 +++++--
 CppLisp/CppLispInterpreter/Interpreter.h   |  5 ++++
 3 files changed, 29 insertions(+), 17 deletions(-)

diff --git a/CppLisp/CppLispInterpreter/Environment.cpp b/CppLisp/CppLispInterpreter/Environment.cpp
index 86044b0..019313c 100644
--- a/CppLisp/CppLispInterpreter/Environment.cpp
+++ b/CppLisp/CppLispInterpreter/Environment.cpp
@@ -252,7 +252,7 @@ static std::shared_ptr<object> CreateFunction(FuncX func, const string & signatu
 
 static std::shared_ptr<LispVariant> EvalArgIfNeeded(std::shared_ptr<object> arg, std::shared_ptr<LispScope> scope)
 {
-	return (arg->IsIEnumerableOfObject() /*is IEnumerable<object>*/ || arg->IsList()) ? LispInterpreter::EvalAst(arg, scope) : arg->ToLispVariant();
+	return (arg->IsIEnumerableOfObject() /*is IEnumerable<object>*/ || arg->IsList()) ? LispInterpreter::EvalAstToValue(arg, scope) : arg->ToLispVariant();
 }
 
 static std::shared_ptr<LispVariant> def_form_helper(const std::vector<std::shared_ptr<object>> & args, std::shared_ptr<LispScope> scope, const string & name, std::shared_ptr<LispScope> scopeToSet)
@@ -264,7 +264,7 @@ static std::shared_ptr<LispVariant> def_form_helper(const std::vector<std::share
 	{
 		throw LispException("Symbol expected", scope.get());
 	}
-	var value = LispInterpreter::EvalAst(args[1], scope);
+	var value = LispInterpreter::EvalAstToValue(args[1], scope);
 	var ret = std::make_shared<object>(*value);
 	(*scopeToSet)[symbol->ToString()] = ret;
 	return std::make_shared<LispVariant>(ret);
@@ -885,7 +885,7 @@ static std::shared_ptr<LispVariant> ArithmetricOperation(const std::vector<std::
 			result = op(result, std::make_shared<LispVariant>(LispVariant(elem)));
 		}
 	}
-	return result;
+	return result != null ? result : std::make_shared<LispVariant>();
 }
 
 static std::shared_ptr<LispVariant> CompareOperation(const std::vector<std::shared_ptr<object>> & args, std::function<bool(const LispVariant &, const LispVariant &)> op, std::shared_ptr<LispScope> scope, const string & name)
@@ -1022,7 +1022,8 @@ static std::shared_ptr<LispVariant> Map(const std::vector<std::shared_ptr<object
 		// call for every element the given function (args[0])
 		std::vector<std::shared_ptr<object>> args;
 		args.push_back(std::make_shared<object>(*elem));
-		list.Add(std::make_shared<object>(*(function.Function(args, scope))));
+		var value = function.Function(args, scope);
+		list.Add(std::make_shared<object>(value != null ? *value : LispVariant()));
 	}
 	var result = std::make_shared<LispVariant>(LispType::_List, std::make_shared<object>(list));
 	return result;
@@ -1043,8 +1044,8 @@ static std::shared_ptr<LispVariant> Reduce(const std::vector<std::shared_ptr<obj
 		std::vector<std::shared_ptr<object>> args;
 		args.push_back(std::make_shared<object>(*elem));
 		args.push_back(std::make_shared<object>(*result));		
-		var x = *(function.Function(args, scope));
-		result = std::make_shared<LispVariant>(x);
+		var value = function.Function(args, scope);
+		result = value != null ? value : std::make_shared<LispVariant>();
 	}
 	return result;
 }
@@ -1353,7 +1354,7 @@ static std::shared_ptr<LispVariant> ApplyFcn(const std::vector<std::shared_ptr<o
 {
 	CheckArgs(LispEnvironment::Apply, 2, args, scope);
 
-	var fcn = LispInterpreter::EvalAst(args[0], scope);
+	var fcn = LispInterpreter::EvalAstToValue(args[0], scope);
 
 	const LispVariant & arguments = args[1]->ToLispVariantRef();
 
@@ -1492,7 +1493,7 @@ static std::shared_ptr<LispVariant> bool_operation_form(const std::vector<std::s
 	var result = initial;
 	for(var arg : args)
 	{
-		bool value = LispInterpreter::EvalAst(arg, scope)->BoolValue();
+		bool value = LispInterpreter::EvalAstToValue(arg, scope)->BoolValue();
 		result = func(result, value);
 		if (initial)
 		{ 
@@ -1543,7 +1544,7 @@ static std::shared_ptr<LispVariant> setf_form(const std::vector<std::shared_ptr<
 	var symbol = EvalArgIfNeeded(args[0], scope);
 	scope->NeedsLValue = originalNeedsLValue;
 	var symbolName = symbol != null ? symbol->ToString() : /*null*/string::Empty;
-	var value = LispInterpreter::EvalAst(args[1], scope);
+	var value = LispInterpreter::EvalAstToValue(args[1], scope);
 	if (symbol->IsLValue())
 	{
 		std::function<void(std::shared_ptr<object>)> action = symbol->Value->ToSetterAction();
@@ -1570,7 +1571,7 @@ static std::shared_ptr<LispVariant> definemacroevaluate_form(const std::vector<s
 		}
 	}
 
-	return null;
+	return std::make_shared<LispVariant>();
 }
 
 #ifdef ENABLE_COMPILE_TIME_MACROS 
@@ -1588,7 +1589,7 @@ static std::shared_ptr<LispVariant> definemacroexpand_form(const std::vector<std
 		(*macros)[args[0]->ToString()] = std::make_shared<object>(LispMacroCompileTimeExpand(LispEnvironment::GetExpression(args[1]), std::make_shared<IEnumerable<std::shared_ptr<object>>>(result->ToEnumerableOfObjectRef())));
 	}
 
-	return null;
+	return std::make_shared<LispVariant>();
 }
 
 #endif
@@ -1677,7 +1678,7 @@ static std::shared_ptr<object> ProcessQuotedSExpression(const IEnumerable<std::s
 			const LispVariant & variant = item1->ToLispVariantRef();
 			if (variant.IsSymbol() && (variant.ToString() == LispEnvironment::UnQuote || variant.ToString() == LispEnvironment::UnQuoteSplicing))
 			{
-				var evalResult = LispInterpreter::EvalAst(item2, scope);
+				var evalResult = LispInterpreter::EvalAstToValue(item2, scope);
 				splicing = variant.ToString() == LispEnvironment::UnQuoteSplicing;
 				evalResult->IsUnQuoted = splicing ? LispUnQuoteModus::_UnQuoteSplicing : LispUnQuoteModus::_UnQuote;
 				return std::make_shared<object>(*evalResult);
@@ -1739,7 +1740,7 @@ static std::shared_ptr<LispVariant> if_form(const std::vector<std::shared_ptr<ob
 		CheckArgs(If, -1, args, scope);
 	}
 
-	var passed = LispInterpreter::EvalAst(args[0], scope)->BoolValue();
+	var passed = LispInterpreter::EvalAstToValue(args[0], scope)->BoolValue();
 	var elseCode = args.size() > 2 ? args[2] : null; // PATCH for PIC32MX ? std::make_shared<object>(null);
 	return LispInterpreter::EvalAst(passed ? args[1] : elseCode, scope);
 }
@@ -1749,7 +1750,7 @@ static std::shared_ptr<LispVariant> while_form(const std::vector<std::shared_ptr
 	CheckArgs(While, 2, args, scope);
 
 	var result = std::make_shared<LispVariant>();
-	var condition = LispInterpreter::EvalAst(args[0], scope);
+	var condition = LispInterpreter::EvalAstToValue(args[0], scope);
 	while (condition->ToBool())
 	{
 		result = LispInterpreter::EvalAst(args[1], scope);
@@ -1757,7 +1758,7 @@ static std::shared_ptr<LispVariant> while_form(const std::vector<std::shared_ptr
 		{
 			break;
 		}
-		condition = LispInterpreter::EvalAst(args[0], scope);
+		condition = LispInterpreter::EvalAstToValue(args[0], scope);
 	}
 	return result;
 }
diff --git a/CppLisp/CppLispInterpreter/Interpreter.cpp b/CppLisp/CppLispInterpreter/Interpreter.cpp
index e9641d3..6ce0f25 100644
--- a/CppLisp/CppLispInterpreter/Interpreter.cpp
+++ b/CppLisp/CppLispInterpreter/Interpreter.cpp
@@ -71,6 +71,12 @@ namespace CppLisp
 		return astWithResolvedValues;
 	}
 
+	std::shared_ptr<LispVariant> LispInterpreter::EvalAstToValue(std::shared_ptr<object> ast, std::shared_ptr<LispScope> scope)
+	{
+		std::shared_ptr<LispVariant> result = EvalAst(ast, scope);
+		return result != null ? result : std::make_shared<LispVariant>();
+	}
+
 	std::shared_ptr<LispVariant> LispInterpreter::EvalAst(std::shared_ptr<object> ast, std::shared_ptr<LispScope> scope)
 	{
 		if (ast.get() == null)
@@ -175,7 +181,7 @@ namespace CppLisp
 		{
 			var needEvaluation = (arrAstWithResolvedValues[i]->IsList() /*is IEnumerable<object>*/) && !functionWrapper.IsSpecialForm();
 
-			var result = needEvaluation ? std::make_shared<object>(*EvalAst(arrAstWithResolvedValues[i], scope)) : arrAstWithResolvedValues[i];
+			var result = needEvaluation ? std::make_shared<object>(*EvalAstToValue(arrAstWithResolvedValues[i], scope)) : arrAstWithResolvedValues[i];
 			//var result = needEvaluation ? EvalAst(arrAstWithResolvedValues[i], scope)->Value : arrAstWithResolvedValues[i];
 
 			// process statemens like this: `,@l  with l = (1 2 3)
@@ -285,7 +291,7 @@ namespace CppLisp
 				var macroExpand = macro->ToLispMacroCompileTimeExpand();
 				var astWithReplacedArguments = std::make_shared<object>(*ReplaceFormalArgumentsInExpression(macroExpand->FormalArguments, std::make_shared<IEnumerable<std::shared_ptr<object>>>(astAsList), macroExpand->Expression, globalScope, /*ref*/ anyMacroReplaced));
 				// process recursive macro expands (do not wrap list as LispVariant at this point)
-				var processedAst = ConvertLispVariantListToListIfNeeded(EvalAst(astWithReplacedArguments, globalScope)->Value);
+				var processedAst = ConvertLispVariantListToListIfNeeded(EvalAstToValue(astWithReplacedArguments, globalScope)->Value);
 				return std::make_shared<object>(*processedAst);
 			}
 		}
diff --git a/CppLisp/CppLispInterpreter/Interpreter.h b/CppLisp/CppLispInterpreter/Interpreter.h
index 07bfaca..de2e331 100644
--- a/CppLisp/CppLispInterpreter/Interpreter.h
+++ b/CppLisp/CppLispInterpreter/Interpreter.h
@@ -73,6 +73,11 @@ namespace CppLisp
         /// <exception cref="System.Exception">Unexpected macro modus!</exception>
 		/*public*/ static std::shared_ptr<LispVariant> EvalAst(std::shared_ptr<object> ast, std::shared_ptr<LispScope> scope);
 
+		/// <summary>
+		/// Like EvalAst, but an expression without a value (null) gives the undefined value.
+		/// </summary>
+		/*public*/ static std::shared_ptr<LispVariant> EvalAstToValue(std::shared_ptr<object> ast, std::shared_ptr<LispScope> scope);
+
 #ifdef ENABLE_COMPILE_TIME_MACROS 
 
 		/*public*/ static std::shared_ptr<object> ExpandMacros(std::shared_ptr<object> ast, std::shared_ptr<LispScope> globalScope);
-- 
2.43.0


From ecdbc1729dfd91cc30d75413716f5877b258105d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:25 +0000
Subject: [PATCH 09/53] fix: missing arguments of return, trace, sleep, fn and
 of the argument accessors are reported

---
 CppLisp/CppLispInterpreter/Environment.cpp | 33 +++++++++++++++++-----
 1 file changed, 26 insertions(+), 7 deletions(-)

diff --git a/CppLisp/CppLispInterpreter/Environment.cpp b/CppLisp/CppLispInterpreter/Environment.cpp
index 019313c..44932d0 100644
--- a/CppLisp/CppLispInterpreter/Environment.cpp
+++ b/CppLisp/CppLispInterpreter/Environment.cpp
@@ -132,8 +132,7 @@ static string GetStringRepresentation(const std::vector<std::shared_ptr<object>>
 	}
 	if (scope->ContainsKey(Traceon) && (bool)(*scope)[Traceon])
 	{
-		var buffer = /*(StringBuilder)*/(*scope)[Tracebuffer];
-		string temp = buffer->ToString();
+		string temp = scope->ContainsKey(Tracebuffer) ? (*scope)[Tracebuffer]->ToString() : string::Empty;
 		temp += text;
 		(*scope)[Tracebuffer] = std::make_shared<object>(temp);
 		//old: buffer.Append(text);
@@ -391,6 +390,8 @@ static std::shared_ptr<LispVariant> NeedLValue(const std::vector<std::shared_ptr
 
 static std::shared_ptr<LispVariant> TracePrint(const std::vector<std::shared_ptr<object>> & args, std::shared_ptr<LispScope> scope)
 {
+	CheckArgs("trace", 1, args, scope);
+
 	var status = args[0]->ToLispVariantRef();
 	(*scope)[Traceon] = std::make_shared<object>(status.BoolValue());
 	return std::make_shared<LispVariant>(std::make_shared<object>(status.BoolValue()));
@@ -398,7 +399,7 @@ static std::shared_ptr<LispVariant> TracePrint(const std::vector<std::shared_ptr
 
 static std::shared_ptr<LispVariant> GetTracePrint(const std::vector<std::shared_ptr<object>> & /*args*/, std::shared_ptr<LispScope> scope)
 {
-	string buffer = (*scope)[Tracebuffer]->ToString(); // var buffer = (StringBuilder)(*scope)[Tracebuffer];
+	string buffer = scope->ContainsKey(Tracebuffer) ? (*scope)[Tracebuffer]->ToString() : string::Empty; // var buffer = (StringBuilder)(*scope)[Tracebuffer];
 	return std::make_shared<LispVariant>(std::make_shared<object>(buffer));
 }
 
@@ -439,8 +440,10 @@ static std::shared_ptr<LispVariant> CurrentTickCount(const std::vector<std::shar
 	return FuelFuncWrapper0<int>(args, scope, "tickcount", []() -> int { return (int)GetTickCount(); });
 }
 
-static std::shared_ptr<LispVariant> _Sleep(const std::vector<std::shared_ptr<object>> & args, std::shared_ptr<LispScope> /*scope*/)
+static std::shared_ptr<LispVariant> _Sleep(const std::vector<std::shared_ptr<object>> & args, std::shared_ptr<LispScope> scope)
 {
+	CheckArgs("sleep", 1, args, scope);
+
 	var timeInMs = ((LispVariant)args[0]).ToInt();
 	std::this_thread::sleep_for(std::chrono::milliseconds(timeInMs));
 	return std::make_shared<LispVariant>(LispVariant());
@@ -615,6 +618,8 @@ static std::shared_ptr<LispVariant> Nop(const std::vector<std::shared_ptr<object
 
 static std::shared_ptr<LispVariant> Return(const std::vector<std::shared_ptr<object>> & args, std::shared_ptr<LispScope> scope)
 {
+	CheckArgs("return", 1, args, scope);
+
 	scope->IsInReturn = true;
 	return std::make_shared<LispVariant>(LispVariant(args[0]));
 }
@@ -1324,16 +1329,25 @@ static std::shared_ptr<LispVariant> ConvertToString(const std::vector<std::share
 	return std::make_shared<LispVariant>(LispType::_String, std::make_shared<object>(value));
 }
 
+static const IEnumerable<std::shared_ptr<object>> & GetFunctionArgs(const string & name, std::shared_ptr<LispScope> scope)
+{
+	if (!scope->ContainsKey(ArgsMeta))
+	{
+		throw LispException("No function arguments available in " + name, scope.get());
+	}
+	return (*scope)[ArgsMeta]->ToListRef();
+}
+
 static std::shared_ptr<LispVariant> ArgsCountFcn(const std::vector<std::shared_ptr<object>> & args, std::shared_ptr<LispScope> scope)
 {
-	return FuelFuncWrapper0<int>(args, scope, "argscount", [scope]() -> int { return (int)(*scope)[ArgsMeta]->ToListRef().Count();  });
+	return FuelFuncWrapper0<int>(args, scope, "argscount", [scope]() -> int { return (int)GetFunctionArgs(ArgsCount, scope).Count();  });
 }
 
 static std::shared_ptr<LispVariant> ArgsFcn(const std::vector<std::shared_ptr<object>> & args, std::shared_ptr<LispScope> scope)
 {
 	CheckArgs("args", 0, args, scope);
 
-	var array = (*scope)[ArgsMeta]->ToListRef()/*.ToArray()*/;
+	var array = GetFunctionArgs(Args, scope)/*.ToArray()*/;
 	return std::make_shared<LispVariant>(std::make_shared<object>(array));
 }
 
@@ -1342,7 +1356,7 @@ static std::shared_ptr<LispVariant> ArgFcn(const std::vector<std::shared_ptr<obj
 	CheckArgs("arg", 1, args, scope);
 
 	var index = args[0]->ToLispVariantRef().IntValue();
-	const IEnumerable<std::shared_ptr<object>> & array = (*scope)[ArgsMeta]->ToListRef();
+	const IEnumerable<std::shared_ptr<object>> & array = GetFunctionArgs(Arg, scope);
 	if (index >= 0 && index < (int)array.size())
 	{
 		return std::make_shared<LispVariant>(array[index]);
@@ -1799,6 +1813,11 @@ static IEnumerable<std::shared_ptr<object>> VectorToList(const std::vector<std::
 
 std::shared_ptr<LispVariant> fn_form(const std::vector<std::shared_ptr<object>> & args, std::shared_ptr<LispScope> scope)
 {
+	if (args.size() < 2)
+	{
+		CheckArgs(Fn, 2, args, scope);
+	}
+
 	var name = /*(string)*/scope->UserData.get()!=null ? scope->UserData->ToString() : "";
 	var moduleName = scope->ModuleName;
 	var userDoc = scope->UserDoc;
-- 
2.43.0


From a66fa18d208c599873d7f762dfbc5769db02d9ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:47 +0000
Subject: [PATCH 10/53] fix: malformed macro and function definitions and macro
 calls are reported instead of accessing foreign memory

---
 CppLisp/CppLispInterpreter/Environment.cpp | 18 ++++++++++++------
 CppLisp/CppLispInterpreter/Interpreter.cpp |  4 ++++
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/CppLisp/CppLispInterpreter/Environment.cpp b/CppLisp/CppLispInterpreter/Environment.cpp
index 44932d0..769ddd8 100644
--- a/CppLisp/CppLispInterpreter/Environment.cpp
+++ b/CppLisp/CppLispInterpreter/Environment.cpp
@@ -1571,9 +1571,18 @@ static std::shared_ptr<LispVariant> setf_form(const std::vector<std::shared_ptr<
 	return value;
 }
 
+static void CheckForListInMacro(const string & name, const std::vector<std::shared_ptr<object>> & args, std::shared_ptr<LispScope> scope)
+{
+	if (!args[1]->IsList() || !args[2]->IsList())
+	{
+		throw LispException("List expected in " + name, scope.get());
+	}
+}
+
 static std::shared_ptr<LispVariant> definemacroevaluate_form(const std::vector<std::shared_ptr<object>> & args, std::shared_ptr<LispScope> scope)
 {
 	CheckArgs(DefineMacroEval, 3, args, scope);
+	CheckForListInMacro(DefineMacroEval, args, scope);
 
 	auto dict = (*(scope->GlobalScope));
 	if (dict.find(LispEnvironment::Macros) != dict.end())
@@ -1594,6 +1603,7 @@ static std::shared_ptr<LispVariant> definemacroevaluate_form(const std::vector<s
 static std::shared_ptr<LispVariant> definemacroexpand_form(const std::vector<std::shared_ptr<object>> & args, std::shared_ptr<LispScope> scope)
 {
 	CheckArgs(DefineMacroExpand, 3, args, scope);
+	CheckForListInMacro(DefineMacroExpand, args, scope);
 
 	var macros = ((*(scope->GlobalScope))[LispEnvironment::Macros])->GetLispScopeRef();
 	if (macros != null)
@@ -1904,7 +1914,7 @@ std::shared_ptr<LispVariant> fn_form(const std::vector<std::shared_ptr<object>>
 			{
 				scope->GlobalScope->Output->WriteLine(ex.ToString());
 
-				debugger->InteractiveLoop(/*initialTopScope: */childScope, /*currentAst :*/ /*(IEnumerable<object>)*/std::make_shared<IEnumerable<std::shared_ptr<object>>>(args[1]->ToEnumerableOfObjectRef()) /*new List<object> { info.Item2 }*/);
+				debugger->InteractiveLoop(/*initialTopScope: */childScope, /*currentAst :*/ /*(IEnumerable<object>)*/LispEnvironment::GetExpression(args[1]) /*new List<object> { info.Item2 }*/);
 			}
 
 			// rethrow the original exception (a copy would lose the data of derived exceptions)
@@ -1939,11 +1949,7 @@ static const IEnumerable<std::shared_ptr<object>> & GetEnumerableFromArgs(std::s
 {
 	if (args->IsLispVariant())
 	{
-		const LispVariant & tempVal = args->ToLispVariantRef();
-		if (tempVal.IsList())
-		{
-			return tempVal.ListValueRef();
-		}
+		return args->ToLispVariantRef().ListValueRef();
 	}
 	return args->ToEnumerableOfObjectRef();
 }
diff --git a/CppLisp/CppLispInterpreter/Interpreter.cpp b/CppLisp/CppLispInterpreter/Interpreter.cpp
index 6ce0f25..6b42d6a 100644
--- a/CppLisp/CppLispInterpreter/Interpreter.cpp
+++ b/CppLisp/CppLispInterpreter/Interpreter.cpp
@@ -382,6 +382,10 @@ namespace CppLisp
 
 		for (var formalArgument : *formalArguments)
 		{
+			if ((size_t)i >= astAsList->Count())
+			{
+				throw LispException(string::Format("Bad argument count in macro {0}, has {1} expected {2}", astAsList->First()->ToString(), std::to_string(astAsList->Count() - 1), std::to_string(formalArguments->Count())), scope.get());
+			}
 			std::shared_ptr<object> value;
 			auto elem = (*astAsList)[i];
 			if (elem->IsIEnumerableOfObject() || elem->IsList())
-- 
2.43.0


From 9243505c9bc18baf2b3529a412868995eb9d0efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:43 +0000
Subject: [PATCH 11/53] fix: integer division by zero is reported instead of
 killing the process

---
 CppLisp/CppLispInterpreter/Variant.cpp | 22 ++++++++++++++++++++--
 CppLisp/CppLispInterpreter/Variant.h   |  1 +
 2 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/CppLisp/CppLispInterpreter/Variant.cpp b/CppLisp/CppLispInterpreter/Variant.cpp
index be6ea42..5abaf15 100644
--- a/CppLisp/CppLispInterpreter/Variant.cpp
+++ b/CppLisp/CppLispInterpreter/Variant.cpp
@@ -422,7 +422,13 @@ namespace CppLisp
 		}
 		if (IsInt() || r.IsInt())
 		{
-			return /*new*/ LispVariant(std::make_shared<object>(ToInt() / r.ToInt()));
+			int divisor = r.ToInt();
+			if (divisor == 0)
+			{
+				throw CreateDivisionByZeroException();
+			}
+			// the quotient of the smallest integer and -1 is not representable, use the same wrap around as for multiplication
+			return /*new*/ LispVariant(std::make_shared<object>(divisor == -1 ? (int)(0u - (unsigned int)ToInt()) : ToInt() / divisor));
 		}
 		throw CreateInvalidOperationException("/", *this, r);
 	}
@@ -435,7 +441,12 @@ namespace CppLisp
 		}
 		if (IsInt() || r.IsInt())
 		{
-			return /*new*/ LispVariant(std::make_shared<object>(ToInt() % r.ToInt()));
+			int divisor = r.ToInt();
+			if (divisor == 0)
+			{
+				throw CreateDivisionByZeroException();
+			}
+			return /*new*/ LispVariant(std::make_shared<object>(divisor == -1 ? 0 : ToInt() % divisor));
 		}
 		throw CreateInvalidOperationException("%", *this, r);
 	}
@@ -573,6 +584,13 @@ namespace CppLisp
 		return exception;
 	}
 
+	LispException LispVariant::CreateDivisionByZeroException() const
+	{
+		var exception = /*new*/ LispException("Division by zero", 0);
+		exception.AddTokenInfos(Token);
+		return exception;
+	}
+
 	const LispFunctionWrapper & LispVariant::FunctionValue() const
 	{
 		//get
diff --git a/CppLisp/CppLispInterpreter/Variant.h b/CppLisp/CppLispInterpreter/Variant.h
index bd97a65..9a9ad6a 100644
--- a/CppLisp/CppLispInterpreter/Variant.h
+++ b/CppLisp/CppLispInterpreter/Variant.h
@@ -390,6 +390,7 @@ namespace CppLisp
 
 		/*private*/ static LispType TypeOf(std::shared_ptr<object> obj);
 
+		/*private*/ LispException CreateDivisionByZeroException() const;
 		/*private*/ LispException CreateInvalidCastException(const string & name, const string & msg = "no") const;
 	    /*private*/ static LispException CreateInvalidOperationException(const string & operation, const LispVariant & l, const LispVariant & r);
 
-- 
2.43.0


From 7482e0bff801afb858262ff0322a27873eceb5ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:48 +0000
Subject: [PATCH 12/53] fix: lists are equal when their elements are equal by
 value, also nested ones

---
 CppLisp/CppLispInterpreter/Variant.cpp  |  4 ++--
 CppLisp/CppLispInterpreter/csobject.cpp | 17 +++++++++++++----
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/CppLisp/CppLispInterpreter/Variant.cpp b/CppLisp/CppLispInterpreter/Variant.cpp
index 5abaf15..5ea8529 100644
--- a/CppLisp/CppLispInterpreter/Variant.cpp
+++ b/CppLisp/CppLispInterpreter/Variant.cpp
@@ -325,7 +325,7 @@ namespace CppLisp
 		if (other->IsLispVariant())
 		{
 			const LispVariant & otherVariant = other->ToLispVariantRef();
-			return Value->Equals(*(otherVariant.Value));
+			return Value != null && otherVariant.Value != null && Value->Equals(*(otherVariant.Value));
 		}
 		return false;
 	}
@@ -801,7 +801,7 @@ namespace CppLisp
 
 	bool LispVariant::operator==(const LispVariant & r) const
 	{
-		return *Value == *(r.Value);
+		return EqualOp(*this, r);
 	}
 
 	bool LispVariant::operator!=(const LispVariant & other) const
diff --git a/CppLisp/CppLispInterpreter/csobject.cpp b/CppLisp/CppLispInterpreter/csobject.cpp
index 45d3e88..291bafc 100644
--- a/CppLisp/CppLispInterpreter/csobject.cpp
+++ b/CppLisp/CppLispInterpreter/csobject.cpp
@@ -136,6 +136,19 @@ namespace CppLisp
 
 	bool object::operator==(const object & other) const
 	{
+		if ((IsLispVariant() || IsList()) && (other.IsLispVariant() || other.IsList()))
+		{
+			// list elements: compare by value, values without a defined equality are different
+			try
+			{
+				return LispVariant::EqualOp(IsLispVariant() ? ToLispVariantRef() : LispVariant(std::make_shared<object>(*this)),
+					other.IsLispVariant() ? other.ToLispVariantRef() : LispVariant(std::make_shared<object>(other)));
+			}
+			catch (const LispExceptionBase &)
+			{
+				return false;
+			}
+		}
 		if (GetType() == other.GetType())
 		{
 			switch (m_Type)
@@ -152,8 +165,6 @@ namespace CppLisp
 					return (double)(*this) == (double)other;
 				case __String:
 					return ToString() == other.ToString();
-				case __List:
-					return ToListRef() == other.ToListRef();
 				case __Function:
 					return false;
 				case __Symbol:
@@ -161,8 +172,6 @@ namespace CppLisp
 				case __NativeObject:
 					return false;
 					//__Array = 10,
-				case __LispVariant:
-					return ToLispVariantRef() == other.ToLispVariantRef();
 				case __LispFunctionWrapper:
 					return false;
 				case __LispToken:
-- 
2.43.0


From 322d1e31f0f3f196c3e2899aacf322590621eac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:25 +0000
Subject: [PATCH 13/53] fix: a variable with the name of a list head no longer
 stops the macro expansion with an error

---
 CppLisp/CppLispInterpreter/Interpreter.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/CppLisp/CppLispInterpreter/Interpreter.cpp b/CppLisp/CppLispInterpreter/Interpreter.cpp
index 6b42d6a..fbbcb10 100644
--- a/CppLisp/CppLispInterpreter/Interpreter.cpp
+++ b/CppLisp/CppLispInterpreter/Interpreter.cpp
@@ -265,9 +265,10 @@ namespace CppLisp
 		var functionName = function->ToString();
 		if (globalScope != null && globalScope->ContainsKey(functionName))
 		{
-			var fcn = (*globalScope)[functionName]->ToLispVariantRef().FunctionValue();
-			if (fcn.IsEvalInExpand())
+			const LispVariant & value = (*globalScope)[functionName]->ToLispVariantRef();
+			if (value.IsFunction() && value.FunctionValue().IsEvalInExpand())
 			{
+				var fcn = value.FunctionValue();
 				var args = std::make_shared<IEnumerable<std::shared_ptr<object>>>(astAsList);
 				args->RemoveAt(0);
 
-- 
2.43.0


From 97f61784927e7cb62499ea32d4c05ce081ba0b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:31 +0000
Subject: [PATCH 14/53] fix: arguments after a spliced list are no longer lost

---
 CppLisp/CppLispInterpreter/Interpreter.cpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/CppLisp/CppLispInterpreter/Interpreter.cpp b/CppLisp/CppLispInterpreter/Interpreter.cpp
index fbbcb10..ef20c99 100644
--- a/CppLisp/CppLispInterpreter/Interpreter.cpp
+++ b/CppLisp/CppLispInterpreter/Interpreter.cpp
@@ -175,7 +175,7 @@ namespace CppLisp
 #endif
 
 		// evaluate arguments, but allow recursive lists
-		std::vector<std::shared_ptr<object>> arguments(astWithResolvedValues->Count() - 1); // = new object[astWithResolvedValues->Count() - 1];
+		std::vector<std::shared_ptr<object>> arguments; // = new object[astWithResolvedValues->Count() - 1];
 		const std::vector<std::shared_ptr<object>> & arrAstWithResolvedValues = astWithResolvedValues->ToArray();
 		for (size_t i = 1; i < astWithResolvedValues->Count(); i++)
 		{
@@ -191,18 +191,16 @@ namespace CppLisp
 				if (variant.IsUnQuoted == LispUnQuoteModus::_UnQuoteSplicing && variant.IsList())
 				{
 					var lst = variant.ListValueRef();
-					arguments.resize(arguments.size() + lst.size() - 1);
 					for(var elem : lst)
 					{
-						arguments[i - 1] = elem;
-						i++;
+						arguments.push_back(elem);
 					}
 
-					break;
+					continue;
 				}
 			}
 
-			arguments[i - 1] = result;
+			arguments.push_back(result);
 		}
 
 #ifndef _DISABLE_DEBUGGER
-- 
2.43.0


From 32f6a13a39ca9015e39fc0389cc800cc7634946b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:54 +0000
Subject: [PATCH 15/53] fix: unquoted parts of quasiquoted lists with two
 elements are evaluated, too

---
 CppLisp/CppLispInterpreter/Environment.cpp | 47 +++++++++-------------
 1 file changed, 20 insertions(+), 27 deletions(-)

diff --git a/CppLisp/CppLispInterpreter/Environment.cpp b/CppLisp/CppLispInterpreter/Environment.cpp
index 769ddd8..8374f16 100644
--- a/CppLisp/CppLispInterpreter/Environment.cpp
+++ b/CppLisp/CppLispInterpreter/Environment.cpp
@@ -1693,47 +1693,40 @@ static std::shared_ptr<object> ProcessQuotedSExpression(const IEnumerable<std::s
 
 	splicing = false;
 
-	if (expr.Count() == 2)
+	if (expr.Count() == 2 && expr.First()->IsLispVariant())
 	{
 		var item1 = expr.First();
 		var item2 = expr.ElementAt(1);
-		if (item1->IsLispVariant())
+		const LispVariant & variant = item1->ToLispVariantRef();
+		if (variant.IsSymbol() && (variant.ToString() == LispEnvironment::UnQuote || variant.ToString() == LispEnvironment::UnQuoteSplicing))
 		{
-			const LispVariant & variant = item1->ToLispVariantRef();
-			if (variant.IsSymbol() && (variant.ToString() == LispEnvironment::UnQuote || variant.ToString() == LispEnvironment::UnQuoteSplicing))
-			{
-				var evalResult = LispInterpreter::EvalAstToValue(item2, scope);
-				splicing = variant.ToString() == LispEnvironment::UnQuoteSplicing;
-				evalResult->IsUnQuoted = splicing ? LispUnQuoteModus::_UnQuoteSplicing : LispUnQuoteModus::_UnQuote;
-				return std::make_shared<object>(*evalResult);
-			}
+			var evalResult = LispInterpreter::EvalAstToValue(item2, scope);
+			splicing = variant.ToString() == LispEnvironment::UnQuoteSplicing;
+			evalResult->IsUnQuoted = splicing ? LispUnQuoteModus::_UnQuoteSplicing : LispUnQuoteModus::_UnQuote;
+			return std::make_shared<object>(*evalResult);
 		}
-		result.Add(item1);
-		result.Add(item2);
 	}
-	else
+
+	for (var itm : expr)
 	{
-		for (var itm : expr)
+		if (itm->IsIEnumerableOfObject() || itm->IsList())
 		{
-			if (itm->IsIEnumerableOfObject() || itm->IsList())
+			bool tempSplicing = false;
+			var res = ProcessQuotedSExpression(itm->IsIEnumerableOfObject() ? itm->ToEnumerableOfObjectRef() : itm->ToListRef(), scope, /*out*/ tempSplicing);
+			if (tempSplicing)
 			{
-				bool tempSplicing = false;
-				var res = ProcessQuotedSExpression(itm->IsIEnumerableOfObject() ? itm->ToEnumerableOfObjectRef() : itm->ToListRef(), scope, /*out*/ tempSplicing);
-				if (tempSplicing)
-				{
-					const LispVariant & variant = res->ToLispVariantRef();
-					result.AddRange(variant.ListValueRef());
-				}
-				else
-				{
-					result.Add(res);
-				}
+				const LispVariant & variant = res->ToLispVariantRef();
+				result.AddRange(variant.ListValueRef());
 			}
 			else
 			{
-				result.Add(itm);
+				result.Add(res);
 			}
 		}
+		else
+		{
+			result.Add(itm);
+		}
 	}
 	return std::make_shared<object>(result);
 }
-- 
2.43.0


From 2d2a9878a548a15da9bcc1e5999f44a1e71d45ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:46 +0000
Subject: [PATCH 16/53] fix: trace #f switches the recording of printed texts
 off

---
 CppLisp/CppLispInterpreter/Environment.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CppLisp/CppLispInterpreter/Environment.cpp b/CppLisp/CppLispInterpreter/Environment.cpp
index 8374f16..c35609a 100644
--- a/CppLisp/CppLispInterpreter/Environment.cpp
+++ b/CppLisp/CppLispInterpreter/Environment.cpp
@@ -130,7 +130,7 @@ static string GetStringRepresentation(const std::vector<std::shared_ptr<object>>
 		}
 		text += item->ToString();
 	}
-	if (scope->ContainsKey(Traceon) && (bool)(*scope)[Traceon])
+	if (scope->ContainsKey(Traceon) && (bool)(*(*scope)[Traceon]))
 	{
 		string temp = scope->ContainsKey(Tracebuffer) ? (*scope)[Tracebuffer]->ToString() : string::Empty;
 		temp += text;
-- 
2.43.0


From 7aa99f1a9eaaf659563c7f77e686ba2a7732da84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:46 +0000
Subject: [PATCH 17/53] fix: search with a length looks for the whole text
 inside of the given part

---
 CppLisp/CppLispInterpreter/csstring.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/CppLisp/CppLispInterpreter/csstring.h b/CppLisp/CppLispInterpreter/csstring.h
index 88499c9..d11d680 100644
--- a/CppLisp/CppLispInterpreter/csstring.h
+++ b/CppLisp/CppLispInterpreter/csstring.h
@@ -160,7 +160,8 @@ namespace CppLisp
 
 		inline size_t IndexOf(const string & txt, size_t offset, size_t count) const
 		{
-			return find(txt.c_str(), offset, count);
+			// the text must be found completely in the count characters starting at offset
+			return offset <= size() ? substr(0, count < size() - offset ? offset + count : size()).find(txt, offset) : npos;
 		}
 
 		inline void Append(const string & txt)
-- 
2.43.0


From 3d8c4eb4554ee4b08012f5ff1b80930a20e4d47f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:46 +0000
Subject: [PATCH 18/53] fix: format replaces every place holder exactly once
 and reports a bad width

---
 CppLisp/CppLispInterpreter/csstring.cpp | 89 ++++++++++---------------
 1 file changed, 37 insertions(+), 52 deletions(-)

diff --git a/CppLisp/CppLispInterpreter/csstring.cpp b/CppLisp/CppLispInterpreter/csstring.cpp
index 981637b..5db2030 100644
--- a/CppLisp/CppLispInterpreter/csstring.cpp
+++ b/CppLisp/CppLispInterpreter/csstring.cpp
@@ -162,60 +162,45 @@ namespace CppLisp
 
 	string string::Format(const string & txt, const string & arg1, const string & arg2, const string & arg3, const string & arg4, const string & arg5)
 	{
-		const string ERR_MSG = "Not enough items for format string: " + txt;
-		bool found;
-		string temp = txt;
-		temp = ReplaceIn(temp, "{0}", arg1, found);
-		if (found && arg1 == NULL_STRING)
+		// replace every place holder {n} or {n,width} exactly once, inserted texts are not processed again
+		const string * args[] = { &arg1, &arg2, &arg3, &arg4, &arg5 };
+		string result;
+		size_t i = 0;
+		while (i < txt.size())
 		{
-			throw LispExceptionBase(ERR_MSG);
-		}
-		temp = ReplaceInWithFill(temp, "{0,", arg1, found);
-		if (found && arg1 == NULL_STRING)
-		{
-			throw LispExceptionBase(ERR_MSG);
-		}
-		temp = ReplaceIn(temp, "{1}", arg2, found);
-		if (found && arg2 == NULL_STRING)
-		{
-			throw LispExceptionBase(ERR_MSG);
-		}
-		temp = ReplaceInWithFill(temp, "{1,", arg2, found);
-		if (found && arg2 == NULL_STRING)
-		{
-			throw LispExceptionBase(ERR_MSG);
-		}
-		temp = ReplaceIn(temp, "{2}", arg3, found);
-		if (found && arg3 == NULL_STRING)
-		{
-			throw LispExceptionBase(ERR_MSG);
-		}
-		temp = ReplaceInWithFill(temp, "{2,", arg3, found);
-		if (found && arg3 == NULL_STRING)
-		{
-			throw LispExceptionBase(ERR_MSG);
-		}
-		temp = ReplaceIn(temp, "{3}", arg4, found);
-		if (found && arg4 == NULL_STRING)
-		{
-			throw LispExceptionBase(ERR_MSG);
-		}
-		temp = ReplaceInWithFill(temp, "{3,", arg4, found);
-		if (found && arg4 == NULL_STRING)
-		{
-			throw LispExceptionBase(ERR_MSG);
-		}
-		temp = ReplaceIn(temp, "{4}", arg5, found);
-		if (found && arg5 == NULL_STRING)
-		{
-			throw LispExceptionBase(ERR_MSG);
-		}
-		temp = ReplaceInWithFill(temp, "{4,", arg5, found);
-		if (found && arg5 == NULL_STRING)
-		{
-			throw LispExceptionBase(ERR_MSG);
+			if (txt[i] == '{' && i + 2 < txt.size() && txt[i + 1] >= '0' && txt[i + 1] <= '4' && (txt[i + 2] == '}' || txt[i + 2] == ','))
+			{
+				size_t stop = txt.find("}", i + 2);
+				if (stop != std::string::npos)
+				{
+					const string & arg = *(args[txt[i + 1] - '0']);
+					int width = 0;
+					if (txt[i + 2] == ',')
+					{
+						string len = txt.substr(i + 3, stop - i - 3);
+						char * end = 0;
+						long value = strtol(len.c_str(), &end, 10);
+						if (end == len.c_str() || *end != 0 || value < -10000 || value > 10000)
+						{
+							throw LispExceptionBase("Invalid width in format string: " + txt);
+						}
+						width = (int)value;
+					}
+					if (arg == NULL_STRING)
+					{
+						throw LispExceptionBase("Not enough items for format string: " + txt);
+					}
+					int count = abs(width) - (int)arg.size();
+					string fill(std::string(count > 0 ? count : 0, ' '));
+					result += width > 0 ? fill + arg : arg + fill;
+					i = stop + 1;
+					continue;
+				}
+			}
+			result += txt[i];
+			i++;
 		}
-		return temp;
+		return result;
 	}
 
     int string::CompareOrdinal(const string & a, const string & b)
-- 
2.43.0


From 8fc0597f0f21fda451116a05811f230dddeaf06d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:46 +0000
Subject: [PATCH 19/53] fix: the scope state is restored when an error leaves
 evalstr, setf, rval, import or a function call

---
 CppLisp/CppLispInterpreter/Environment.cpp | 46 ++++++++++++++++++++--
 CppLisp/CppLispInterpreter/Lisp.cpp        |  5 +++
 CppLisp/CppLispInterpreter/Scope.cpp       |  1 +
 CppLisp/CppLispInterpreter/Scope.h         |  8 +++-
 4 files changed, 54 insertions(+), 6 deletions(-)

diff --git a/CppLisp/CppLispInterpreter/Environment.cpp b/CppLisp/CppLispInterpreter/Environment.cpp
index c35609a..b2fcdb9 100644
--- a/CppLisp/CppLispInterpreter/Environment.cpp
+++ b/CppLisp/CppLispInterpreter/Environment.cpp
@@ -600,7 +600,15 @@ static std::shared_ptr<LispVariant> Import(const std::vector<std::shared_ptr<obj
 			var importScope = std::make_shared<LispScope>("import " + fileName, scope->GlobalScope, std::make_shared<string>(fileName), scope->Output, scope->Input);
 			scope->PushNextScope(importScope);
 
-			result = Lisp::Eval(code, importScope, fileName);
+			try
+			{
+				result = Lisp::Eval(code, importScope, fileName);
+			}
+			catch (...)
+			{
+				scope->PopNextScope();
+				throw;
+			}
 
 			// add new module to modules scope
 			(*(((*(scope->GlobalScope))[LispEnvironment::Modules])->GetLispScopeRef()))[fileName] = std::make_shared<object>(*importScope); // .Add(fileName, importScope);
@@ -1298,7 +1306,16 @@ static std::shared_ptr<LispVariant> RValue(const std::vector<std::shared_ptr<obj
 
 	var originalLValue = scope->NeedsLValue;
 	scope->NeedsLValue = false;
-	var value = EvalArgIfNeeded(args[0], scope);
+	std::shared_ptr<LispVariant> value;
+	try
+	{
+		value = EvalArgIfNeeded(args[0], scope);
+	}
+	catch (...)
+	{
+		scope->NeedsLValue = originalLValue;
+		throw;
+	}
 	scope->NeedsLValue = originalLValue;
 	return value;
 }
@@ -1407,8 +1424,18 @@ static std::shared_ptr<LispVariant> EvalStrFcn(const std::vector<std::shared_ptr
 
 	const LispVariant & variant = args[0]->ToLispVariantRef();
 	var tempModuleName = scope->ModuleName;
+	std::shared_ptr<LispVariant> result;
 	scope->IsInEval = true;
-	var result = Lisp::Eval(variant.Value->ToString(), scope, LispEnvironment::EvalStrTag + scope->ModuleName + ":" + variant.Value->ToString());
+	try
+	{
+		result = Lisp::Eval(variant.StringValue(), scope, LispEnvironment::EvalStrTag + scope->ModuleName + ":" + variant.StringValue());
+	}
+	catch (...)
+	{
+		scope->IsInEval = false;
+		scope->ModuleName = tempModuleName;
+		throw;
+	}
 	scope->IsInEval = false;
 	scope->ModuleName = tempModuleName;
 	return result;
@@ -1555,7 +1582,16 @@ static std::shared_ptr<LispVariant> setf_form(const std::vector<std::shared_ptr<
 
 	var originalNeedsLValue = scope->NeedsLValue;
 	scope->NeedsLValue = true;
-	var symbol = EvalArgIfNeeded(args[0], scope);
+	std::shared_ptr<LispVariant> symbol;
+	try
+	{
+		symbol = EvalArgIfNeeded(args[0], scope);
+	}
+	catch (...)
+	{
+		scope->NeedsLValue = originalNeedsLValue;
+		throw;
+	}
 	scope->NeedsLValue = originalNeedsLValue;
 	var symbolName = symbol != null ? symbol->ToString() : /*null*/string::Empty;
 	var value = LispInterpreter::EvalAstToValue(args[1], scope);
@@ -1893,6 +1929,7 @@ std::shared_ptr<LispVariant> fn_form(const std::vector<std::shared_ptr<object>>
 		catch (LispStopDebuggerException &)
 		{
 			// forward a debugger stop exception to stop the debugger loop
+			localScope->PopNextScope();
 			throw;
 		}
 		catch (LispExceptionBase & ex)
@@ -1911,6 +1948,7 @@ std::shared_ptr<LispVariant> fn_form(const std::vector<std::shared_ptr<object>>
 			}
 
 			// rethrow the original exception (a copy would lose the data of derived exceptions)
+			localScope->PopNextScope();
 			throw;
 		}
 		localScope->PopNextScope();
diff --git a/CppLisp/CppLispInterpreter/Lisp.cpp b/CppLisp/CppLispInterpreter/Lisp.cpp
index 0b67c2a..d323198 100644
--- a/CppLisp/CppLispInterpreter/Lisp.cpp
+++ b/CppLisp/CppLispInterpreter/Lisp.cpp
@@ -117,6 +117,11 @@ namespace CppLisp
 		var currentScope = scope == null ? LispEnvironment::CreateDefaultScope() : scope;
 		currentScope->ModuleName = moduleName;
 		currentScope->Tracing = tracing;
+		if (!currentScope->IsInEval)
+		{
+			// a return statement ends only the evaluation it belongs to
+			currentScope->IsInReturn = false;
+		}
 		currentScope->Output = outp != null ? outp : (scope != null ? scope->Output : std::make_shared<TextWriter>());
 		currentScope->Input = inp != null ? inp : (scope != null ? scope->Input : std::make_shared<TextReader>());
 		RegisterNativeObjects(/*nativeItems,*/ *currentScope);
diff --git a/CppLisp/CppLispInterpreter/Scope.cpp b/CppLisp/CppLispInterpreter/Scope.cpp
index 6935321..3829b7a 100644
--- a/CppLisp/CppLispInterpreter/Scope.cpp
+++ b/CppLisp/CppLispInterpreter/Scope.cpp
@@ -32,6 +32,7 @@ namespace CppLisp
 	LispScope::LispScope(const string & fcnName, std::shared_ptr<LispScope> globalScope, std::shared_ptr<string> moduleName, std::shared_ptr<TextWriter> outp, std::shared_ptr<TextReader> inp)
 	{
 		Debugger = null;
+		Tracing = false;
 		IsInEval = false;
 		IsInReturn = false;
 		NeedsLValue = false;
diff --git a/CppLisp/CppLispInterpreter/Scope.h b/CppLisp/CppLispInterpreter/Scope.h
index e35cab7..7dbc7de 100644
--- a/CppLisp/CppLispInterpreter/Scope.h
+++ b/CppLisp/CppLispInterpreter/Scope.h
@@ -202,8 +202,12 @@ namespace CppLisp
 
         /*public*/ inline void PopNextScope()
         {
-            Next->Previous = null;
-            Next = null;
+            // the next scope could already be removed by an evaluation in the debugger
+            if (Next != null)
+            {
+                Next->Previous = null;
+                Next = null;
+            }
         }
 
         /// <summary>
-- 
2.43.0


From 0a2579246bdb3bf27364aeaa8992b320e17c6f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:46 +0000
Subject: [PATCH 20/53] fix: native exceptions are reported as an error value
 of SaveEval

---
 CppLisp/CppLispInterpreter/Lisp.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/CppLisp/CppLispInterpreter/Lisp.cpp b/CppLisp/CppLispInterpreter/Lisp.cpp
index d323198..4684d39 100644
--- a/CppLisp/CppLispInterpreter/Lisp.cpp
+++ b/CppLisp/CppLispInterpreter/Lisp.cpp
@@ -186,6 +186,10 @@ namespace CppLisp
 		{
 			result = LispVariant::CreateErrorValue(exc.Message);
 		}
+		catch (const std::exception & exc)
+		{
+			result = LispVariant::CreateErrorValue(string(exc.what()));
+		}
 		return result;
 	}
 
-- 
2.43.0


From d3ff2038b6ada69ab1784cdce6cfd46fb0523d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:46 +0000
Subject: [PATCH 21/53] fix: doc and searchdoc search the modules, not the
 macros, and skip variables

---
 CppLisp/CppLispInterpreter/Environment.cpp |  2 +-
 CppLisp/CppLispInterpreter/Scope.cpp       | 12 ++++--------
 2 files changed, 5 insertions(+), 9 deletions(-)

diff --git a/CppLisp/CppLispInterpreter/Environment.cpp b/CppLisp/CppLispInterpreter/Environment.cpp
index b2fcdb9..b2e8791 100644
--- a/CppLisp/CppLispInterpreter/Environment.cpp
+++ b/CppLisp/CppLispInterpreter/Environment.cpp
@@ -327,7 +327,7 @@ static std::shared_ptr<LispVariant> DoSearchDocumentation(const std::vector<std:
 		{
 			help += scope->GetFunctionsHelpFormated(item->ToString(), select);
 			// search for functions in all loaded modules
-			auto tempScope = ((*(scope->GlobalScope))[LispEnvironment::Macros])->GetLispScopeRef();
+			auto tempScope = ((*(scope->GlobalScope))[LispEnvironment::Modules])->GetLispScopeRef();
 			for(/*KeyValuePair*/std::pair<string, std::shared_ptr<object>> module : *tempScope)
 			{
 				help += module.second->GetLispScopeRef()->GetFunctionsHelpFormated(item->ToString(), select);
diff --git a/CppLisp/CppLispInterpreter/Scope.cpp b/CppLisp/CppLispInterpreter/Scope.cpp
index 3829b7a..c1ee33e 100644
--- a/CppLisp/CppLispInterpreter/Scope.cpp
+++ b/CppLisp/CppLispInterpreter/Scope.cpp
@@ -254,19 +254,15 @@ namespace CppLisp
 		//foreach (var key in Keys)
 		for (const string & key : GetKeys())
 		{
-			if (select != null)
+			if (select != null ? select(key, functionName) : key.StartsWith(functionName))
 			{
-				if (select(key, functionName))
+				const LispVariant & value = /*(LispVariant)*/(*this)[key]->ToLispVariantRef();
+				// variables have no documentation
+				if (value.IsFunction())
 				{
-					const LispVariant & value = /*(LispVariant)*/(*this)[key]->ToLispVariantRef();
 					result += value.FunctionValue().GetFormatedDoc();
 				}
 			}
-			else if (key.StartsWith(functionName))
-			{
-				const LispVariant & value = /*(LispVariant)*/(*this)[key]->ToLispVariantRef();
-				result += value.FunctionValue().GetFormatedDoc();
-			}
 		}
 		return result;
 	}
-- 
2.43.0


From 9221354365b13bfe6542e352d229a9595ff70da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:47 +0000
Subject: [PATCH 22/53] fix: dictionaries keep the type of their values, accept
 keys of different types and report other arguments

---
 CppLisp/CppLispInterpreter/Environment.cpp | 46 ++++++++++++++++------
 CppLisp/CppLispInterpreter/Variant.cpp     | 18 ++++++++-
 CppLisp/CppLispInterpreter/Variant.h       | 15 +++++++
 3 files changed, 65 insertions(+), 14 deletions(-)

diff --git a/CppLisp/CppLispInterpreter/Environment.cpp b/CppLisp/CppLispInterpreter/Environment.cpp
index b2e8791..a98fd88 100644
--- a/CppLisp/CppLispInterpreter/Environment.cpp
+++ b/CppLisp/CppLispInterpreter/Environment.cpp
@@ -1448,14 +1448,34 @@ static std::shared_ptr<LispVariant> MakeDict(const std::vector<std::shared_ptr<o
 	return std::make_shared<LispVariant>(LispVariant(LispType::_NativeObject, std::make_shared<object>(Dictionary<LispVariant, std::shared_ptr<object>>())));
 }
 
+static Dictionary<LispVariant, std::shared_ptr<object>> & CheckForDict(const string & functionName, std::shared_ptr<object> arg, std::shared_ptr<LispScope> scope)
+{
+	const LispVariant & value = arg->ToLispVariantRef();
+	if (!value.IsNativeObject() || !value.Value->IsDictionary())
+	{
+		throw LispException("No dictionary in " + functionName, scope.get());
+	}
+	return value.Value->ToDictionary();
+}
+
+static const LispVariant & CheckForKey(const string & functionName, std::shared_ptr<object> arg, std::shared_ptr<LispScope> scope)
+{
+	const LispVariant & key = arg->ToLispVariantRef();
+	if (!(arg->IsLispVariant() && (key.IsNumber() || key.IsBool() || key.IsString() || key.IsSymbol() || key.IsNil() || key.IsUndefined())))
+	{
+		throw LispException("Invalid key type " + LispEnvironment::GetLispType(arg) + " in " + functionName, scope.get());
+	}
+	return key;
+}
+
 static std::shared_ptr<LispVariant> DictSet(const std::vector<std::shared_ptr<object>> & args, std::shared_ptr<LispScope> scope)
 {
 	CheckArgs("dict-set", 3, args, scope);
 
-	Dictionary<LispVariant, std::shared_ptr<object>> &  dict = args[0]->ToLispVariantRef().Value->ToDictionary();
-	const LispVariant & key = args[1]->ToLispVariantRef();
+	Dictionary<LispVariant, std::shared_ptr<object>> &  dict = CheckForDict("dict-set", args[0], scope);
+	const LispVariant & key = CheckForKey("dict-set", args[1], scope);
 	var value = args[2]->ToLispVariant();
-	dict[key] = value->Value;
+	dict[key] = std::make_shared<object>(*value);
 
 	return value;
 }
@@ -1464,8 +1484,8 @@ static std::shared_ptr<LispVariant> DictGet(const std::vector<std::shared_ptr<ob
 {
 	CheckArgs("dict-get", 2, args, scope);
 
-	Dictionary<LispVariant, std::shared_ptr<object>> &  dict = args[0]->ToLispVariantRef().Value->ToDictionary();
-	const LispVariant & key = args[1]->ToLispVariantRef();
+	Dictionary<LispVariant, std::shared_ptr<object>> &  dict = CheckForDict("dict-get", args[0], scope);
+	const LispVariant & key = CheckForKey("dict-get", args[1], scope);
 	var result = dict.ContainsKey(key) ? dict[key] : std::make_shared<object>(object());
 
 	return std::make_shared<LispVariant>(result);
@@ -1475,8 +1495,8 @@ static std::shared_ptr<LispVariant> DictRemove(const std::vector<std::shared_ptr
 {
 	CheckArgs("dict-remove", 2, args, scope);
 
-	Dictionary<LispVariant, std::shared_ptr<object>> &  dict = args[0]->ToLispVariantRef().Value->ToDictionary();
-	const LispVariant & key = args[1]->ToLispVariantRef();
+	Dictionary<LispVariant, std::shared_ptr<object>> &  dict = CheckForDict("dict-remove", args[0], scope);
+	const LispVariant & key = CheckForKey("dict-remove", args[1], scope);
 	var ok = dict.Remove(key);
 
 	return std::make_shared<LispVariant>(std::make_shared<object>(ok));
@@ -1486,7 +1506,7 @@ static std::shared_ptr<LispVariant> DictKeys(const std::vector<std::shared_ptr<o
 {
 	CheckArgs("dict-keys", 1, args, scope);
 
-	Dictionary<LispVariant, std::shared_ptr<object>> &  dict = args[0]->ToLispVariantRef().Value->ToDictionary();
+	Dictionary<LispVariant, std::shared_ptr<object>> &  dict = CheckForDict("dict-keys", args[0], scope);
 	IEnumerable<std::shared_ptr<object>> result;
 	for (var elem : dict.GetKeys())
 	//foreach(var key in nativeDict.Keys)
@@ -1501,7 +1521,7 @@ static std::shared_ptr<LispVariant> DictClear(const std::vector<std::shared_ptr<
 {
 	CheckArgs("dict-clean", 1, args, scope);
 
-	Dictionary<LispVariant, std::shared_ptr<object>> &  dict = args[0]->ToLispVariantRef().Value->ToDictionary();
+	Dictionary<LispVariant, std::shared_ptr<object>> &  dict = CheckForDict("dict-clear", args[0], scope);
 	dict.Clear();
 
 	return std::make_shared<LispVariant>();
@@ -1511,8 +1531,8 @@ static std::shared_ptr<LispVariant> DictContainsKey(const std::vector<std::share
 {
 	CheckArgs("dict-contains-key", 2, args, scope);
 
-	Dictionary<LispVariant, std::shared_ptr<object>> &  dict = args[0]->ToLispVariantRef().Value->ToDictionary();
-	const LispVariant & key = args[1]->ToLispVariantRef();
+	Dictionary<LispVariant, std::shared_ptr<object>> &  dict = CheckForDict("dict-contains-key", args[0], scope);
+	const LispVariant & key = CheckForKey("dict-contains-key", args[1], scope);
 	var result = dict.ContainsKey(key);
 
 	return std::make_shared<LispVariant>(std::make_shared<object>(result));
@@ -1522,9 +1542,9 @@ static std::shared_ptr<LispVariant> DictContainsValue(const std::vector<std::sha
 {
 	CheckArgs("dict-contains-value", 2, args, scope);
 
-	Dictionary<LispVariant, std::shared_ptr<object>> &  dict = args[0]->ToLispVariantRef().Value->ToDictionary();
+	Dictionary<LispVariant, std::shared_ptr<object>> &  dict = CheckForDict("dict-contains-value", args[0], scope);
 	var value = args[1]->ToLispVariant();
-	var result = dict.ContainsValue(value->Value);
+	var result = dict.ContainsValue(std::make_shared<object>(*value));
 
 	return std::make_shared<LispVariant>(std::make_shared<object>(result));
 }
diff --git a/CppLisp/CppLispInterpreter/Variant.cpp b/CppLisp/CppLispInterpreter/Variant.cpp
index 5ea8529..16462e9 100644
--- a/CppLisp/CppLispInterpreter/Variant.cpp
+++ b/CppLisp/CppLispInterpreter/Variant.cpp
@@ -747,7 +747,7 @@ namespace CppLisp
 					result += ", ";
 				}
 
-				result += "[" + GetNativeObjectStringRepresentation(element.first.Value) + " : " + GetNativeObjectStringRepresentation(element.second) + "]";
+				result += "[" + element.first.ToStringDebugger() + " : " + GetNativeObjectStringRepresentation(element.second) + "]";
 			}
 
 			result = "{ " + result + " }";
@@ -799,6 +799,22 @@ namespace CppLisp
 		return ret;
 	}
 
+	bool LispVariant::IsLessKey(const LispVariant & l, const LispVariant & r)
+	{
+		if (l.IsNumber() && r.IsNumber())
+		{
+			return l.ToDouble() < r.ToDouble();
+		}
+		// first all strings, then all numbers, then all other types
+		int typeL = l.IsString() ? -2 : (l.IsNumber() ? -1 : (int)l.Type);
+		int typeR = r.IsString() ? -2 : (r.IsNumber() ? -1 : (int)r.Type);
+		if (typeL != typeR)
+		{
+			return typeL < typeR;
+		}
+		return string::CompareOrdinal(l.ToString(), r.ToString()) < 0;
+	}
+
 	bool LispVariant::operator==(const LispVariant & r) const
 	{
 		return EqualOp(*this, r);
diff --git a/CppLisp/CppLispInterpreter/Variant.h b/CppLisp/CppLispInterpreter/Variant.h
index 9a9ad6a..fed5c37 100644
--- a/CppLisp/CppLispInterpreter/Variant.h
+++ b/CppLisp/CppLispInterpreter/Variant.h
@@ -357,6 +357,8 @@ namespace CppLisp
 
 		/*public*/ void Add(std::shared_ptr<object>  value);
 
+		/*public static*/ static bool IsLessKey(const LispVariant & l, const LispVariant & r);	// total order of dictionary keys
+
 		bool operator==(const LispVariant & other) const;
 		bool operator!=(const LispVariant & other) const;
 
@@ -409,4 +411,17 @@ namespace CppLisp
     }
 }
 
+namespace std
+{
+	// dictionary keys of different types are different keys and can be used in the same dictionary
+	template <>
+	struct less<CppLisp::LispVariant>
+	{
+		inline bool operator()(const CppLisp::LispVariant & l, const CppLisp::LispVariant & r) const
+		{
+			return CppLisp::LispVariant::IsLessKey(l, r);
+		}
+	};
+}
+
 #endif
-- 
2.43.0


From 88d545b51223d554e5336134c978fbdbd9ec46a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:02 +0000
Subject: [PATCH 23/53] fix: map, reduce and apply pass nested lists as values,
 not as code

---
 CppLisp/CppLispInterpreter/Environment.cpp | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/CppLisp/CppLispInterpreter/Environment.cpp b/CppLisp/CppLispInterpreter/Environment.cpp
index a98fd88..6ce9aed 100644
--- a/CppLisp/CppLispInterpreter/Environment.cpp
+++ b/CppLisp/CppLispInterpreter/Environment.cpp
@@ -249,6 +249,12 @@ static std::shared_ptr<object> CreateFunction(FuncX func, const string & signatu
 	return std::make_shared<object>(LispVariant(LispType::_Function, std::make_shared<object>(wrapper)));
 }
 
+// lists inside of lists are no values yet, wrap them as a value which will not be evaluated as code
+static std::shared_ptr<object> ListElementToArgument(const std::shared_ptr<object> & elem)
+{
+	return std::make_shared<object>(elem->IsList() ? LispVariant(elem) : LispVariant(*(elem->ToLispVariant())));
+}
+
 static std::shared_ptr<LispVariant> EvalArgIfNeeded(std::shared_ptr<object> arg, std::shared_ptr<LispScope> scope)
 {
 	return (arg->IsIEnumerableOfObject() /*is IEnumerable<object>*/ || arg->IsList()) ? LispInterpreter::EvalAstToValue(arg, scope) : arg->ToLispVariant();
@@ -1034,7 +1040,7 @@ static std::shared_ptr<LispVariant> Map(const std::vector<std::shared_ptr<object
 	{
 		// call for every element the given function (args[0])
 		std::vector<std::shared_ptr<object>> args;
-		args.push_back(std::make_shared<object>(*elem));
+		args.push_back(ListElementToArgument(elem));
 		var value = function.Function(args, scope);
 		list.Add(std::make_shared<object>(value != null ? *value : LispVariant()));
 	}
@@ -1055,7 +1061,7 @@ static std::shared_ptr<LispVariant> Reduce(const std::vector<std::shared_ptr<obj
 	{
 		// call for every element the given function (args[0])
 		std::vector<std::shared_ptr<object>> args;
-		args.push_back(std::make_shared<object>(*elem));
+		args.push_back(ListElementToArgument(elem));
 		args.push_back(std::make_shared<object>(*result));		
 		var value = function.Function(args, scope);
 		result = value != null ? value : std::make_shared<LispVariant>();
@@ -1391,7 +1397,12 @@ static std::shared_ptr<LispVariant> ApplyFcn(const std::vector<std::shared_ptr<o
 
 	if (arguments.IsList())
 	{
-		const IEnumerable<std::shared_ptr<object>> & argumentsArray = arguments.ListValueRef();
+		std::vector<std::shared_ptr<object>> argumentsArray;
+		for (var elem : arguments.ListValueRef())
+		{
+			// special forms get the code itself
+			argumentsArray.push_back(elem->IsList() && !fcn->FunctionValue().IsSpecialForm() ? ListElementToArgument(elem) : elem);
+		}
 		var result = fcn->FunctionValue().Function(argumentsArray, scope);
 		return result;
 	}
-- 
2.43.0


From b82065de14d731e5769074f50a7aaff3af575f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:02 +0000
Subject: [PATCH 24/53] fix: the option -e without a script no longer reads
 foreign memory

---
 CppLisp/CppLispInterpreter/fuel.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/CppLisp/CppLispInterpreter/fuel.cpp b/CppLisp/CppLispInterpreter/fuel.cpp
index 9baa8c8..3d596aa 100644
--- a/CppLisp/CppLispInterpreter/fuel.cpp
+++ b/CppLisp/CppLispInterpreter/fuel.cpp
@@ -211,7 +211,8 @@ namespace CppLisp
 		}
 		if (ContainsOptionAndRemove(allArgs, "-e"))
 		{
-			script = /*LispUtils.*/GetScriptFilesFromProgramArgs(args)[0]/*.FirstOrDefault()*/;
+			std::vector<string> scripts = /*LispUtils.*/GetScriptFilesFromProgramArgs(args);
+			script = scripts.size() > 0 ? scripts[0] : string::Empty;
 			loadFiles = false;
 		}
 		//org: var libPath = args.Where(v = > v.StartsWith("-l=")).Select(v = > v).ToArray();
-- 
2.43.0


From 69033bdfbe5947118ec66a718f9faeca3c474317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:02 +0000
Subject: [PATCH 25/53] fix: the library path option is accepted at every
 position of the command line

---
 CppLisp/CppLispInterpreter/fuel.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/CppLisp/CppLispInterpreter/fuel.cpp b/CppLisp/CppLispInterpreter/fuel.cpp
index 3d596aa..a5d28b2 100644
--- a/CppLisp/CppLispInterpreter/fuel.cpp
+++ b/CppLisp/CppLispInterpreter/fuel.cpp
@@ -216,7 +216,8 @@ namespace CppLisp
 			loadFiles = false;
 		}
 		//org: var libPath = args.Where(v = > v.StartsWith("-l=")).Select(v = > v).ToArray();
-		var libPath = std::vector<string>(std::find_if(args.begin(), args.end(), [](const string & v) -> bool { return v.StartsWith("-l="); }), args.end());
+		std::vector<string> libPath;
+		std::copy_if(args.begin(), args.end(), back_inserter(libPath), [](const string & v) -> bool { return v.StartsWith("-l="); });
 		if (libPath.size() > 0)
 		{
 			if (libPath.size() == 1)
-- 
2.43.0


From 81c37144fd2336edbbfa32b8301ee60751061e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:08 +0000
Subject: [PATCH 26/53] fix: expressions without a value no longer crash the
 command line program and the interactive loop

---
 CppLisp/CppLispDebugger/Debugger.cpp | 4 ++--
 CppLisp/CppLispInterpreter/fuel.cpp  | 5 +++++
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/CppLisp/CppLispDebugger/Debugger.cpp b/CppLisp/CppLispDebugger/Debugger.cpp
index 01deeef..1f05d6b 100644
--- a/CppLisp/CppLispDebugger/Debugger.cpp
+++ b/CppLisp/CppLispDebugger/Debugger.cpp
@@ -242,7 +242,7 @@ namespace CppLisp
 				try
 				{
 					std::shared_ptr<LispVariant> result = Lisp::Eval(cmd, currentScope, currentScope->ModuleName, /*tracing:*/false, outp, inp);
-					debugger->Output->WriteLine("result={0}", result->ToString());
+					debugger->Output->WriteLine("result={0}", (result != null ? *result : LispVariant()).ToString());
 					interactiveScript += cmd + "\n";
 				}
 				catch (LispExceptionBase & ex)
@@ -358,7 +358,7 @@ namespace CppLisp
 					try
 					{
 						std::shared_ptr<LispVariant> result = Lisp::Eval(breakpoint.Condition, scope, scope->ModuleName);
-						return result->BoolValue();
+						return result != null && result->BoolValue();
 					}
 					catch (...)
 					{
diff --git a/CppLisp/CppLispInterpreter/fuel.cpp b/CppLisp/CppLispInterpreter/fuel.cpp
index a5d28b2..f8795a7 100644
--- a/CppLisp/CppLispInterpreter/fuel.cpp
+++ b/CppLisp/CppLispInterpreter/fuel.cpp
@@ -340,6 +340,11 @@ namespace CppLisp
 			result = Lisp::SaveEval(script, /*moduleName:*/ "cmdline", /*verboseErrorOutput:*/ false, /*tracing:*/ false, output, input, macroExpand);
 		}
 
+		if (result == null)
+		{
+			// the last expression has no value
+			result = std::make_shared<LispVariant>();
+		}
 		if (macroExpand)
 		{
 			output->WriteLine(string("Macro expand: ") + result->ToString());
-- 
2.43.0


From 6174f224f961572cfb84910ff71e04dbce0a9c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:23 +0000
Subject: [PATCH 27/53] fix: errors of the doc commands are shown and do not
 end the interactive loop

---
 CppLisp/CppLispDebugger/Debugger.cpp | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/CppLisp/CppLispDebugger/Debugger.cpp b/CppLisp/CppLispDebugger/Debugger.cpp
index 1f05d6b..6d62865 100644
--- a/CppLisp/CppLispDebugger/Debugger.cpp
+++ b/CppLisp/CppLispDebugger/Debugger.cpp
@@ -124,8 +124,15 @@ namespace CppLisp
 				if (items.size() > 1)
 				{
 					string docCmd = "(doc '" + items[1] + ")";
-					std::shared_ptr<LispVariant> result = Lisp::Eval(docCmd, currentScope, currentScope->ModuleName);
-					debugger->Output->WriteLine(string("{0}"), result->ToString());
+					try
+					{
+						std::shared_ptr<LispVariant> result = Lisp::Eval(docCmd, currentScope, currentScope->ModuleName);
+						debugger->Output->WriteLine(string("{0}"), result->ToString());
+					}
+					catch (LispExceptionBase & ex)
+					{
+						debugger->Output->WriteLine("Exception: " + ex.Message);
+					}
 				}
 				else
 				{
@@ -138,8 +145,15 @@ namespace CppLisp
 				if (items.size() > 1)
 				{
 					string docCmd = "(searchdoc '" + items[1] + ")";
-					std::shared_ptr<LispVariant> result = Lisp::Eval(docCmd, currentScope, currentScope->ModuleName);
-					debugger->Output->WriteLine(string("{0}"), result->ToString());
+					try
+					{
+						std::shared_ptr<LispVariant> result = Lisp::Eval(docCmd, currentScope, currentScope->ModuleName);
+						debugger->Output->WriteLine(string("{0}"), result->ToString());
+					}
+					catch (LispExceptionBase & ex)
+					{
+						debugger->Output->WriteLine("Exception: " + ex.Message);
+					}
 				}
 				else
 				{
-- 
2.43.0


From a41e98c42bb2869fb6bdb48adacd7bf6df636ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:30 +0000
Subject: [PATCH 28/53] fix: the debugger no longer loops endlessly at the end
 of the input or after a native exception

---
 CppLisp/CppLispDebugger/Debugger.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/CppLisp/CppLispDebugger/Debugger.cpp b/CppLisp/CppLispDebugger/Debugger.cpp
index 6d62865..602f381 100644
--- a/CppLisp/CppLispDebugger/Debugger.cpp
+++ b/CppLisp/CppLispDebugger/Debugger.cpp
@@ -335,6 +335,7 @@ namespace CppLisp
 			catch (...)
 			{
 				Output->WriteLine("\nNative Exception...");
+				bRestart = InteractiveLoop(this, globalScope, /*startedFromMain:*/ true);
 			}
 
 			if (bRestart)
@@ -513,7 +514,8 @@ namespace CppLisp
 					{
 						answer = answer.ToUpper();
 					}
-				} while (!(answer == "Y" || answer == "N" || answer == "YES" || answer == "NO"));
+					// an empty answer (end of the input, too) deletes nothing
+				} while (!(answer == "Y" || answer == "N" || answer == "YES" || answer == "NO" || answer.size() == 0));
 				if (answer == "Y" || answer == "YES")
 				{
 					debugger->ClearAllBreakpoints();
-- 
2.43.0


From e4aea9fd6e5156a47255027ca60f1e7e8152e5a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:36 +0000
Subject: [PATCH 29/53] fix: the debugger shows positions also for scopes
 without a current token

---
 CppLisp/CppLispDebugger/Debugger.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/CppLisp/CppLispDebugger/Debugger.cpp b/CppLisp/CppLispDebugger/Debugger.cpp
index 602f381..b2bc778 100644
--- a/CppLisp/CppLispDebugger/Debugger.cpp
+++ b/CppLisp/CppLispDebugger/Debugger.cpp
@@ -278,11 +278,12 @@ namespace CppLisp
 		if (currentAst != null)
 		{
 			var lineNumber = initialTopScope != null ? initialTopScope->CurrentLineNo() : 0;
-			var startPos = initialTopScope != null ? initialTopScope->CurrentToken->StartPos : 0;
-			var stopPos = initialTopScope != null ? initialTopScope->CurrentToken->StopPos : 0;
+			var hasToken = initialTopScope != null && initialTopScope->CurrentToken != null;
+			var startPos = hasToken ? initialTopScope->CurrentToken->StartPos : 0;
+			var stopPos = hasToken ? initialTopScope->CurrentToken->StopPos : 0;
 			var moduleName = initialTopScope != null ? initialTopScope->ModuleName : "?";
-			var tokenTxt = initialTopScope != null ? initialTopScope->CurrentToken->ToString() : "?";
-			Output->WriteLine("--> " + (*((*currentAst).begin()))->ToString()/*[0]*/ + " line=" + std::to_string((int)lineNumber) + " start=" + std::to_string((int)startPos) + " stop=" + std::to_string((int)stopPos) + " module=" + moduleName + " token=" + tokenTxt);
+			var tokenTxt = hasToken ? initialTopScope->CurrentToken->ToString() : "?";
+			Output->WriteLine("--> " + (currentAst->Count() > 0 ? currentAst->First()->ToString() : string("()"))/*[0]*/ + " line=" + std::to_string((int)lineNumber) + " start=" + std::to_string((int)startPos) + " stop=" + std::to_string((int)stopPos) + " module=" + moduleName + " token=" + tokenTxt);
 		}
 		InteractiveLoop(this, initialTopScope, startedFromMain, tracing, outp, inp);
 	}
-- 
2.43.0


From ba62277d1910ff5058541c4a65dcb439d1c04422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:42 +0000
Subject: [PATCH 30/53] fix: breakpoint commands reject line numbers which are
 no numbers

---
 CppLisp/CppLispDebugger/Debugger.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/CppLisp/CppLispDebugger/Debugger.cpp b/CppLisp/CppLispDebugger/Debugger.cpp
index b2bc778..72998b7 100644
--- a/CppLisp/CppLispDebugger/Debugger.cpp
+++ b/CppLisp/CppLispDebugger/Debugger.cpp
@@ -634,7 +634,9 @@ namespace CppLisp
 		var ok = true;
 		try
 		{
-			result = /*Convert.ToInt32*/atoi(value.c_str());
+			size_t stopPos = 0;
+			result = /*Convert.ToInt32*/std::stoi(value, &stopPos);
+			ok = stopPos == value.size();
 		}
 		catch (/*FormatException*/...)
 		{
-- 
2.43.0


From 6226e745c217abaeb3d2afb15c65957533c41f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:48 +0000
Subject: [PATCH 31/53] fix: evaluating conditions and expressions in the
 debugger no longer changes the debugged program

---
 CppLisp/CppLispDebugger/Debugger.cpp | 43 +++++++++++++++++++++++++++-
 1 file changed, 42 insertions(+), 1 deletion(-)

diff --git a/CppLisp/CppLispDebugger/Debugger.cpp b/CppLisp/CppLispDebugger/Debugger.cpp
index 72998b7..5380343 100644
--- a/CppLisp/CppLispDebugger/Debugger.cpp
+++ b/CppLisp/CppLispDebugger/Debugger.cpp
@@ -43,6 +43,42 @@ extern "C" CppLisp::ILispDebugger * create_debugger()
 
 namespace CppLisp
 {
+	// Evaluating code for the debugger must not change the state of the debugged program.
+	class ScopeStateSaver
+	{
+	private:
+		std::shared_ptr<LispScope> m_scope;
+		std::shared_ptr<LispToken> m_currentToken;
+		std::shared_ptr<LispScope> m_next;
+		IEnumerable<std::shared_ptr<LispToken>> m_tokens;
+		bool m_bTracing;
+		bool m_bGlobalTracing;
+		bool m_bIsInReturn;
+		bool m_bNeedsLValue;
+		ILispDebugger * m_pDebugger;
+
+	public:
+		explicit ScopeStateSaver(std::shared_ptr<LispScope> scope)
+			: m_scope(scope), m_currentToken(scope->CurrentToken), m_next(scope->Next), m_tokens(scope->Tokens),
+			  m_bTracing(scope->Tracing), m_bGlobalTracing(scope->GlobalScope->Tracing), m_bIsInReturn(scope->IsInReturn),
+			  m_bNeedsLValue(scope->NeedsLValue), m_pDebugger(scope->GlobalScope->Debugger)
+		{
+			m_scope->NeedsLValue = false;
+		}
+
+		~ScopeStateSaver()
+		{
+			m_scope->CurrentToken = m_currentToken;
+			m_scope->Next = m_next;
+			m_scope->Tokens = m_tokens;
+			m_scope->Tracing = m_bTracing;
+			m_scope->GlobalScope->Tracing = m_bGlobalTracing;
+			m_scope->IsInReturn = m_bIsInReturn;
+			m_scope->NeedsLValue = m_bNeedsLValue;
+			m_scope->GlobalScope->Debugger = m_pDebugger;
+		}
+	};
+
 	LispDebugger::LispDebugger()
 	{
 		Breakpoints = std::vector<LispBreakpointInfo>();
@@ -255,7 +291,8 @@ namespace CppLisp
 			{
 				try
 				{
-					std::shared_ptr<LispVariant> result = Lisp::Eval(cmd, currentScope, currentScope->ModuleName, /*tracing:*/false, outp, inp);
+					ScopeStateSaver saver(currentScope);
+					std::shared_ptr<LispVariant> result = Lisp::Eval(cmd, currentScope, currentScope->ModuleName, /*tracing:*/globalScope->Tracing, outp, inp);
 					debugger->Output->WriteLine("result={0}", (result != null ? *result : LispVariant()).ToString());
 					interactiveScript += cmd + "\n";
 				}
@@ -373,6 +410,10 @@ namespace CppLisp
 				{
 					try
 					{
+						// the condition is no part of the program: no tracing and no breaks
+						ScopeStateSaver saver(scope);
+						scope->GlobalScope->Tracing = false;
+						scope->GlobalScope->Debugger = null;
 						std::shared_ptr<LispVariant> result = Lisp::Eval(breakpoint.Condition, scope, scope->ModuleName);
 						return result != null && result->BoolValue();
 					}
-- 
2.43.0


From 38dd5b6893bfa1b9048b86e0aa5ad499c113dfa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:51 +0000
Subject: [PATCH 32/53] fix: a semicolon inside of a string literal no longer
 counts as a line

---
 CppLisp/CppLispInterpreter/Tokenizer.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/CppLisp/CppLispInterpreter/Tokenizer.cpp b/CppLisp/CppLispInterpreter/Tokenizer.cpp
index b6ad532..49c47a5 100644
--- a/CppLisp/CppLispInterpreter/Tokenizer.cpp
+++ b/CppLisp/CppLispInterpreter/Tokenizer.cpp
@@ -106,14 +106,16 @@ namespace CppLisp
 				{
 					addToken(currentToken, i, lineCount);
 					i = ProcessComment(code, i, lineCount, ch, addToken);
+					// comment ends always with new line
+					lineCount++;
 				}
 				else
 				{
 					i = ProcessComment(code, i, lineCount, ch, addToken);
+					// comment ends always with new line
+					lineCount++;
 				}
 				wasLastBackslash = false;
-				// comment ends always with new line
-				lineCount++;
 			}
 			else if (ch == '\'' || ch == '`' || ch == ',')
 			{
-- 
2.43.0


From 19cf58e950e07cc215a8c37d6bf8d63515e4c238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:54 +0000
Subject: [PATCH 33/53] fix: a word directly before a quote mark or a string
 literal is no longer lost

---
 CppLisp/CppLispInterpreter/Tokenizer.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/CppLisp/CppLispInterpreter/Tokenizer.cpp b/CppLisp/CppLispInterpreter/Tokenizer.cpp
index 49c47a5..ec183b4 100644
--- a/CppLisp/CppLispInterpreter/Tokenizer.cpp
+++ b/CppLisp/CppLispInterpreter/Tokenizer.cpp
@@ -125,6 +125,10 @@ namespace CppLisp
 				}
 				else
 				{
+					if (isInSymbol)
+					{
+						addToken(currentToken, i, lineCount);
+					}
 					if (code[i + 1] == '@')
 					{
 						// process unquotesplicing
@@ -154,6 +158,10 @@ namespace CppLisp
 				}
 				else
 				{
+					if (isInSymbol)
+					{
+						addToken(currentToken, i, lineCount);
+					}
 					// start string
 					isInString = true;
 					currentToken = string::Empty;
-- 
2.43.0


From 6f2af6bff228d41f27fd3bee827fb4755f1d5f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:12 +0000
Subject: [PATCH 34/53] fix: macro arguments replace symbols only, not the
 texts of string literals

---
 CppLisp/CppLispInterpreter/Variant.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CppLisp/CppLispInterpreter/Variant.cpp b/CppLisp/CppLispInterpreter/Variant.cpp
index 16462e9..0a8a59c 100644
--- a/CppLisp/CppLispInterpreter/Variant.cpp
+++ b/CppLisp/CppLispInterpreter/Variant.cpp
@@ -325,7 +325,7 @@ namespace CppLisp
 		if (other->IsLispVariant())
 		{
 			const LispVariant & otherVariant = other->ToLispVariantRef();
-			return Value != null && otherVariant.Value != null && Value->Equals(*(otherVariant.Value));
+			return IsSymbol() && otherVariant.IsSymbol() && Value != null && otherVariant.Value != null && Value->Equals(*(otherVariant.Value));
 		}
 		return false;
 	}
-- 
2.43.0


From 24d57ba8a91d92cee2431e56ad0578bbf96ebc19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:35 +0000
Subject: [PATCH 35/53] fix: int and float of values without a number give the
 undefined value, not zero

---
 CppLisp/CppLispInterpreter/Environment.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CppLisp/CppLispInterpreter/Environment.cpp b/CppLisp/CppLispInterpreter/Environment.cpp
index 6ce9aed..207bdc5 100644
--- a/CppLisp/CppLispInterpreter/Environment.cpp
+++ b/CppLisp/CppLispInterpreter/Environment.cpp
@@ -765,7 +765,7 @@ static std::shared_ptr<LispVariant> ToInt(const std::vector<std::shared_ptr<obje
 	{
 		return std::make_shared<LispVariant>(std::make_shared<object>(value.BoolValue() ? 1 : 0));
 	}
-	return std::make_shared<LispVariant>(std::make_shared<object>(LispType::_Undefined));
+	return std::make_shared<LispVariant>(LispVariant(LispType::_Undefined));
 }
 
 static std::shared_ptr<LispVariant> ToFloat(const std::vector<std::shared_ptr<object>> & args, std::shared_ptr<LispScope> scope)
@@ -789,7 +789,7 @@ static std::shared_ptr<LispVariant> ToFloat(const std::vector<std::shared_ptr<ob
 	{
 		return std::make_shared<LispVariant>(std::make_shared<object>(value.BoolValue() ? 1.0 : 0.0));
 	}
-	return std::make_shared<LispVariant>(std::make_shared<object>(LispType::_Undefined));
+	return std::make_shared<LispVariant>(LispVariant(LispType::_Undefined));
 }
 
 static std::shared_ptr<LispVariant> Search(const std::vector<std::shared_ptr<object>> & args, std::shared_ptr<LispScope> scope)
-- 
2.43.0


From efb828ec9b86d891ec786de11c850156eb66322f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:18 +0000
Subject: [PATCH 36/53] fix: an unclosed quoted list at top level is reported

---
 CppLisp/CppLispInterpreter/Parser.cpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/CppLisp/CppLispInterpreter/Parser.cpp b/CppLisp/CppLispInterpreter/Parser.cpp
index 3feeba5..60cbd0e 100644
--- a/CppLisp/CppLispInterpreter/Parser.cpp
+++ b/CppLisp/CppLispInterpreter/Parser.cpp
@@ -166,16 +166,13 @@ namespace CppLisp
 			}
 		}
 
-		if (isToplevel && tokens.size()>0)
+		// end of the tokens: also a quoted list must be closed
+		if ((isToplevel || current != null) && tokens.size()>0)
 		{
 			std::shared_ptr<LispToken> token = tokens.back/*Last*/();
 			throw LispException(BracketsOutOfBalance, token, moduleName);
 		}
 
-		if (current != null)
-		{
-			parseResult = std::make_shared<object>(*current);
-		}
 		return i;
 	}
 
-- 
2.43.0


From ad172aae025aa68b1d90d1cd5934ace18d9738ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:10 +0000
Subject: [PATCH 37/53] fix: if with a wrong number of operands names the
 expected counts

---
 CppLisp/CppLispInterpreter/Environment.cpp | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/CppLisp/CppLispInterpreter/Environment.cpp b/CppLisp/CppLispInterpreter/Environment.cpp
index 207bdc5..22c36de 100644
--- a/CppLisp/CppLispInterpreter/Environment.cpp
+++ b/CppLisp/CppLispInterpreter/Environment.cpp
@@ -1818,11 +1818,7 @@ std::shared_ptr<LispVariant> quasiquote_form(const std::vector<std::shared_ptr<o
 
 static std::shared_ptr<LispVariant> if_form(const std::vector<std::shared_ptr<object>> & args, std::shared_ptr<LispScope> scope)
 {
-	if (!(args.size() == 2 || args.size() == 3))
-	{
-		// throw exception
-		CheckArgs(If, -1, args, scope);
-	}
+	CheckOptionalArgs(If, 2, 3, args, scope);
 
 	var passed = LispInterpreter::EvalAstToValue(args[0], scope)->BoolValue();
 	var elseCode = args.size() > 2 ? args[2] : null; // PATCH for PIC32MX ? std::make_shared<object>(null);
-- 
2.43.0


From 5c6a14813c7e4f1c892ad25c891bba62ee01d507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:36 +0000
Subject: [PATCH 38/53] fix: errors of operators and search name the types, not
 unprintable characters

---
 CppLisp/CppLispInterpreter/Environment.cpp | 2 +-
 CppLisp/CppLispInterpreter/Variant.cpp     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/CppLisp/CppLispInterpreter/Environment.cpp b/CppLisp/CppLispInterpreter/Environment.cpp
index 22c36de..6b02ed0 100644
--- a/CppLisp/CppLispInterpreter/Environment.cpp
+++ b/CppLisp/CppLispInterpreter/Environment.cpp
@@ -837,7 +837,7 @@ static std::shared_ptr<LispVariant> Search(const std::vector<std::shared_ptr<obj
 	}
 	else
 	{
-		throw LispExceptionBase("search not supported for type " + string((int)args[1]->GetType()));
+		throw LispExceptionBase("search not supported for type " + LispEnvironment::GetLispType(args[1]));
 	}
 	return std::make_shared<LispVariant>(std::make_shared<object>((int)foundPos));
 }
diff --git a/CppLisp/CppLispInterpreter/Variant.cpp b/CppLisp/CppLispInterpreter/Variant.cpp
index 0a8a59c..d54dd00 100644
--- a/CppLisp/CppLispInterpreter/Variant.cpp
+++ b/CppLisp/CppLispInterpreter/Variant.cpp
@@ -579,7 +579,7 @@ namespace CppLisp
 
 	LispException LispVariant::CreateInvalidOperationException(const string & operation, const LispVariant & l, const LispVariant & r)
 	{
-		var exception = /*new*/ LispException(string::Format(NoOperatorForTypes, operation, l.Type, r.Type), 0);
+		var exception = /*new*/ LispException(string::Format(NoOperatorForTypes, operation, l.TypeString(), r.TypeString()), 0);
 		exception.AddTokenInfos(l.Token);
 		return exception;
 	}
-- 
2.43.0


From f56d804c86949a916158a7f7515c413d65fc46a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:58 +0000
Subject: [PATCH 39/53] fix: evalstr no longer switches the tracing off and
 keeps the tokens of the calling code

---
 CppLisp/CppLispInterpreter/Environment.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/CppLisp/CppLispInterpreter/Environment.cpp b/CppLisp/CppLispInterpreter/Environment.cpp
index 6b02ed0..f8a63a1 100644
--- a/CppLisp/CppLispInterpreter/Environment.cpp
+++ b/CppLisp/CppLispInterpreter/Environment.cpp
@@ -1435,20 +1435,23 @@ static std::shared_ptr<LispVariant> EvalStrFcn(const std::vector<std::shared_ptr
 
 	const LispVariant & variant = args[0]->ToLispVariantRef();
 	var tempModuleName = scope->ModuleName;
+	var tempTokens = scope->Tokens;
 	std::shared_ptr<LispVariant> result;
 	scope->IsInEval = true;
 	try
 	{
-		result = Lisp::Eval(variant.StringValue(), scope, LispEnvironment::EvalStrTag + scope->ModuleName + ":" + variant.StringValue());
+		result = Lisp::Eval(variant.StringValue(), scope, LispEnvironment::EvalStrTag + scope->ModuleName + ":" + variant.StringValue(), scope->Tracing);
 	}
 	catch (...)
 	{
 		scope->IsInEval = false;
 		scope->ModuleName = tempModuleName;
+		scope->Tokens = tempTokens;
 		throw;
 	}
 	scope->IsInEval = false;
 	scope->ModuleName = tempModuleName;
+	scope->Tokens = tempTokens;
 	return result;
 }
 
-- 
2.43.0


From a36373e969160ddece9ea3bbb19804642bd9820d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:20 +0000
Subject: [PATCH 40/53] fix: defn evaluates its name once and gives its
 documentation to no other function

---
 CppLisp/CppLispInterpreter/Environment.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/CppLisp/CppLispInterpreter/Environment.cpp b/CppLisp/CppLispInterpreter/Environment.cpp
index f8a63a1..1b1b11e 100644
--- a/CppLisp/CppLispInterpreter/Environment.cpp
+++ b/CppLisp/CppLispInterpreter/Environment.cpp
@@ -2060,20 +2060,24 @@ static std::shared_ptr<LispVariant> defn_form_helper(const std::vector<std::shar
 {
 	CheckArgs(name, 3, args, scope);
 
+	// evaluate the expression for the name only once
+	var symbol = EvalArgIfNeeded(args[0], scope);
+
 	UpdateDocumentationInformationAtScope(args, scope);
 
 	var fn = ((*(scope->GlobalScope))[Fn])->ToLispVariantRef().FunctionValue();
-	scope->UserData = std::make_shared<object>(EvalArgIfNeeded(args[0], scope)->ToString());
+	scope->UserData = std::make_shared<object>(symbol->ToString());
 
 	std::vector<std::shared_ptr<object>> tempArgs;
 	tempArgs.push_back(args[1]);
 	tempArgs.push_back(args[2]);
 	var resultingFcn = fn.Function(tempArgs, scope);
 	scope->UserData = null;
+	scope->UserDoc = null;
 
 	var defFcn = ((*(scope->GlobalScope))[name])->ToLispVariantRef().FunctionValue();
 	std::vector<std::shared_ptr<object>> tempArgs2;
-	tempArgs2.push_back(args[0]);
+	tempArgs2.push_back(std::make_shared<object>(*symbol));
 	tempArgs2.push_back(std::make_shared<object>(*resultingFcn));
 	return defFcn.Function(tempArgs2, scope);
 }
-- 
2.43.0


From 783f37ec8eb15d2e6d7a2c17674d7516b455d6eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:09 +0000
Subject: [PATCH 41/53] fix: deleted or redefined internal names no longer
 crash the interpreter

---
 CppLisp/CppLispInterpreter/Environment.cpp | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/CppLisp/CppLispInterpreter/Environment.cpp b/CppLisp/CppLispInterpreter/Environment.cpp
index 1b1b11e..ed503eb 100644
--- a/CppLisp/CppLispInterpreter/Environment.cpp
+++ b/CppLisp/CppLispInterpreter/Environment.cpp
@@ -260,6 +260,15 @@ static std::shared_ptr<LispVariant> EvalArgIfNeeded(std::shared_ptr<object> arg,
 	return (arg->IsIEnumerableOfObject() /*is IEnumerable<object>*/ || arg->IsList()) ? LispInterpreter::EvalAstToValue(arg, scope) : arg->ToLispVariant();
 }
 
+// the names of the interpreter's own data are reserved
+static void CheckForReservedName(const string & symbolName, std::shared_ptr<LispScope> scope)
+{
+	if (symbolName.StartsWith(MetaTag))
+	{
+		throw LispException("Reserved symbol " + symbolName, scope.get());
+	}
+}
+
 static std::shared_ptr<LispVariant> def_form_helper(const std::vector<std::shared_ptr<object>> & args, std::shared_ptr<LispScope> scope, const string & name, std::shared_ptr<LispScope> scopeToSet)
 {
 	CheckArgs(name, 2, args, scope);
@@ -269,6 +278,7 @@ static std::shared_ptr<LispVariant> def_form_helper(const std::vector<std::share
 	{
 		throw LispException("Symbol expected", scope.get());
 	}
+	CheckForReservedName(symbol->ToString(), scope);
 	var value = LispInterpreter::EvalAstToValue(args[1], scope);
 	var ret = std::make_shared<object>(*value);
 	(*scopeToSet)[symbol->ToString()] = ret;
@@ -384,7 +394,7 @@ static std::shared_ptr<LispVariant> Vars(const std::vector<std::shared_ptr<objec
 
 static std::shared_ptr<LispVariant> DelVar(const std::vector<std::shared_ptr<object>> & args, std::shared_ptr<LispScope> scope)
 {
-	return FuelFuncWrapper1<LispVariant, bool>(args, scope, "delvar", [scope](const LispVariant &arg1) -> bool { return scope->Remove(arg1.ToString()); });
+	return FuelFuncWrapper1<LispVariant, bool>(args, scope, "delvar", [scope](const LispVariant &arg1) -> bool { CheckForReservedName(arg1.ToString(), scope); return scope->Remove(arg1.ToString()); });
 }
 
 #endif
@@ -1636,6 +1646,7 @@ static std::shared_ptr<LispVariant> setf_form(const std::vector<std::shared_ptr<
 	}
 	else
 	{
+		CheckForReservedName(symbolName, scope);
 		scope->SetInScopes(symbolName, std::make_shared<object>(*value));
 	}
 	return value;
@@ -2065,21 +2076,19 @@ static std::shared_ptr<LispVariant> defn_form_helper(const std::vector<std::shar
 
 	UpdateDocumentationInformationAtScope(args, scope);
 
-	var fn = ((*(scope->GlobalScope))[Fn])->ToLispVariantRef().FunctionValue();
 	scope->UserData = std::make_shared<object>(symbol->ToString());
 
 	std::vector<std::shared_ptr<object>> tempArgs;
 	tempArgs.push_back(args[1]);
 	tempArgs.push_back(args[2]);
-	var resultingFcn = fn.Function(tempArgs, scope);
+	var resultingFcn = fn_form(tempArgs, scope);
 	scope->UserData = null;
 	scope->UserDoc = null;
 
-	var defFcn = ((*(scope->GlobalScope))[name])->ToLispVariantRef().FunctionValue();
 	std::vector<std::shared_ptr<object>> tempArgs2;
 	tempArgs2.push_back(std::make_shared<object>(*symbol));
 	tempArgs2.push_back(std::make_shared<object>(*resultingFcn));
-	return defFcn.Function(tempArgs2, scope);
+	return def_form_helper(tempArgs2, scope, name, name == Gdef ? scope->GlobalScope : scope);
 }
 
 static std::shared_ptr<LispVariant> defn_form(const std::vector<std::shared_ptr<object>> & args, std::shared_ptr<LispScope> scope)
-- 
2.43.0


From 66a6c2abf592d49e6f8d86821462d83e3605144a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:36 +0000
Subject: [PATCH 42/53] fix: compile-time macros are defined and expanded in
 modules and evaluated texts, too

---
 CppLisp/CppLispInterpreter/Lisp.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CppLisp/CppLispInterpreter/Lisp.cpp b/CppLisp/CppLispInterpreter/Lisp.cpp
index 4684d39..8a164f1 100644
--- a/CppLisp/CppLispInterpreter/Lisp.cpp
+++ b/CppLisp/CppLispInterpreter/Lisp.cpp
@@ -129,7 +129,7 @@ namespace CppLisp
 		string code = /*LispUtils.*/DecorateWithBlock(lispCode, /*out*/ offset);
 		var ast = LispParser::Parse(code, offset, currentScope);
 #ifdef ENABLE_COMPILE_TIME_MACROS 
-		var expandedAst = std::make_shared<object>(*(LispInterpreter::ExpandMacros(std::make_shared<object>(*ast), currentScope)));
+		var expandedAst = std::make_shared<object>(*(LispInterpreter::ExpandMacros(std::make_shared<object>(*ast), currentScope->GlobalScope)));
 #else
 		var expandedAst = std::make_shared<object>(*ast);
 #endif
-- 
2.43.0


From 53e9f9bab752a8eed2a920ea8561418e9cbfd328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:42 +0000
Subject: [PATCH 43/53] fix: compile-time macros which expand to no list no
 longer crash the interpreter

---
 CppLisp/CppLispInterpreter/Environment.cpp |  4 ++++
 CppLisp/CppLispInterpreter/Interpreter.cpp | 14 ++++++++++++--
 CppLisp/CppLispInterpreter/Lisp.cpp        |  6 +++++-
 3 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/CppLisp/CppLispInterpreter/Environment.cpp b/CppLisp/CppLispInterpreter/Environment.cpp
index ed503eb..b320ffa 100644
--- a/CppLisp/CppLispInterpreter/Environment.cpp
+++ b/CppLisp/CppLispInterpreter/Environment.cpp
@@ -1691,6 +1691,10 @@ static std::shared_ptr<LispVariant> definemacroexpand_form(const std::vector<std
 	{
 		// allow macros in macros --> recursive call for ExpandMacros()
 		std::shared_ptr<object> result = LispInterpreter::ExpandMacros(std::make_shared<object>(*LispEnvironment::GetExpression(args[2])), scope);
+		if (result == null || !result->IsList())
+		{
+			throw LispException("List expected in " + DefineMacroExpand, scope.get());
+		}
 		(*macros)[args[0]->ToString()] = std::make_shared<object>(LispMacroCompileTimeExpand(LispEnvironment::GetExpression(args[1]), std::make_shared<IEnumerable<std::shared_ptr<object>>>(result->ToEnumerableOfObjectRef())));
 	}
 
diff --git a/CppLisp/CppLispInterpreter/Interpreter.cpp b/CppLisp/CppLispInterpreter/Interpreter.cpp
index ef20c99..6502cc7 100644
--- a/CppLisp/CppLispInterpreter/Interpreter.cpp
+++ b/CppLisp/CppLispInterpreter/Interpreter.cpp
@@ -289,9 +289,14 @@ namespace CppLisp
 				anyMacroReplaced = true;
 				var macroExpand = macro->ToLispMacroCompileTimeExpand();
 				var astWithReplacedArguments = std::make_shared<object>(*ReplaceFormalArgumentsInExpression(macroExpand->FormalArguments, std::make_shared<IEnumerable<std::shared_ptr<object>>>(astAsList), macroExpand->Expression, globalScope, /*ref*/ anyMacroReplaced));
+				var value = EvalAstToValue(astWithReplacedArguments, globalScope);
+				if (value->IsUndefined())
+				{
+					// the macro expands to no code at all
+					return null;
+				}
 				// process recursive macro expands (do not wrap list as LispVariant at this point)
-				var processedAst = ConvertLispVariantListToListIfNeeded(EvalAstToValue(astWithReplacedArguments, globalScope)->Value);
-				return std::make_shared<object>(*processedAst);
+				return ConvertLispVariantListToListIfNeeded(std::make_shared<object>(*value));
 			}
 		}
 
@@ -390,6 +395,11 @@ namespace CppLisp
 			if (elem->IsIEnumerableOfObject() || elem->IsList())
 			{
 				value = /*elem;*/ ExpandMacros((*astAsList)[i], scope, /*ref*/ anyMacroReplaced);
+				if (value == null)
+				{
+					// code which is removed in macro expand phase has no value
+					value = std::make_shared<object>(LispVariant(LispType::_Undefined));
+				}
 			}
 			else
 			{
diff --git a/CppLisp/CppLispInterpreter/Lisp.cpp b/CppLisp/CppLispInterpreter/Lisp.cpp
index 8a164f1..d0aedad 100644
--- a/CppLisp/CppLispInterpreter/Lisp.cpp
+++ b/CppLisp/CppLispInterpreter/Lisp.cpp
@@ -129,7 +129,11 @@ namespace CppLisp
 		string code = /*LispUtils.*/DecorateWithBlock(lispCode, /*out*/ offset);
 		var ast = LispParser::Parse(code, offset, currentScope);
 #ifdef ENABLE_COMPILE_TIME_MACROS 
-		var expandedAst = std::make_shared<object>(*(LispInterpreter::ExpandMacros(std::make_shared<object>(*ast), currentScope->GlobalScope)));
+		var expandedAst = LispInterpreter::ExpandMacros(std::make_shared<object>(*ast), currentScope->GlobalScope);
+		if (expandedAst == null)
+		{
+			expandedAst = std::make_shared<object>(LispVariant(LispType::_Undefined));
+		}
 #else
 		var expandedAst = std::make_shared<object>(*ast);
 #endif
-- 
2.43.0


From 0196b5bd7e52ad601b79c4031f84501996e83ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:46 +0000
Subject: [PATCH 44/53] fix: argument count errors of the quote forms named a
 control character

---
 CppLisp/CppLispInterpreter/Environment.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/CppLisp/CppLispInterpreter/Environment.cpp b/CppLisp/CppLispInterpreter/Environment.cpp
index b320ffa..77155f3 100644
--- a/CppLisp/CppLispInterpreter/Environment.cpp
+++ b/CppLisp/CppLispInterpreter/Environment.cpp
@@ -1705,7 +1705,7 @@ static std::shared_ptr<LispVariant> definemacroexpand_form(const std::vector<std
 
 static std::shared_ptr<LispVariant> quote_form(const std::vector<std::shared_ptr<object>> & args, std::shared_ptr<LispScope> scope)
 {
-	CheckArgs(Quote, 1, args, scope);
+	CheckArgs(LispEnvironment::Quote, 1, args, scope);
 
 	return std::make_shared<LispVariant>(std::make_shared<object>(*(args[0])));
 }
@@ -1760,14 +1760,14 @@ std::shared_ptr<object> UnQuoteIfNeeded(std::shared_ptr<object> item, bool & isS
 
 std::shared_ptr<LispVariant> unquote_form(const std::vector<std::shared_ptr<object>> & args, std::shared_ptr<LispScope> scope)
 {
-	CheckArgs(UnQuote, 1, args, scope);
+	CheckArgs(LispEnvironment::UnQuote, 1, args, scope);
 
 	return std::make_shared<LispVariant>(args[0]);
 }
 
 std::shared_ptr<LispVariant> unquotesplicing_form(const std::vector<std::shared_ptr<object>> & args, std::shared_ptr<LispScope> scope)
 {
-	CheckArgs(UnQuoteSplicing, 1, args, scope);
+	CheckArgs(LispEnvironment::UnQuoteSplicing, 1, args, scope);
 
 	return std::make_shared<LispVariant>(args[0]);
 }
-- 
2.43.0


From ae440f57a935ddcf44f097761eba8216d3719a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:43 +0000
Subject: [PATCH 45/53] fix: the code command of the debugger failed inside of
 evalstr

---
 CppLisp/CppLispDebugger/Debugger.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CppLisp/CppLispDebugger/Debugger.cpp b/CppLisp/CppLispDebugger/Debugger.cpp
index 5380343..714ecde 100644
--- a/CppLisp/CppLispDebugger/Debugger.cpp
+++ b/CppLisp/CppLispDebugger/Debugger.cpp
@@ -218,7 +218,7 @@ namespace CppLisp
 				}
 				else
 				{
-					script = moduleName.StartsWith(LispEnvironment::EvalStrTag) ? moduleName.Substring(LispEnvironment::EvalStrTag.size() + moduleName.IndexOf(":", LispEnvironment::EvalStrTag.size())) : /*LispUtils*/ReadFileOrEmptyString(moduleName);
+					script = moduleName.StartsWith(LispEnvironment::EvalStrTag) ? moduleName.Substring(moduleName.IndexOf(":", LispEnvironment::EvalStrTag.size()) + 1) : /*LispUtils*/ReadFileOrEmptyString(moduleName);
 				}
 				// use the script given on command line if no valid module name was set
 				if (string::IsNullOrEmpty(script))
-- 
2.43.0


From fd45a4a1f0064c3ff403230fef2c244608612793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:52 +0000
Subject: [PATCH 46/53] fix: a break command with an unterminated module name
 ended the debugged program

---
 CppLisp/CppLispDebugger/Debugger.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CppLisp/CppLispDebugger/Debugger.cpp b/CppLisp/CppLispDebugger/Debugger.cpp
index 714ecde..27992ab 100644
--- a/CppLisp/CppLispDebugger/Debugger.cpp
+++ b/CppLisp/CppLispDebugger/Debugger.cpp
@@ -579,7 +579,7 @@ namespace CppLisp
 				// process: filename:linenumber
 				size_t iStopPos;
 				moduleName = GetStringLiteral(rest.Substring(1), /*out*/ iStopPos);
-				rest = rest.Substring(iStopPos + 2); // adjust for the two "
+				rest = iStopPos + 2 <= rest.size() ? rest.Substring(iStopPos + 2) : string::Empty; // adjust for the two "
 				if (rest.StartsWith(":"))
 				{
 					cmdArgs = rest.Substring(1).Split(' ');
-- 
2.43.0


From a2544b7ac50b2062dc21ff54d2026d6120d4e7a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:00 +0000
Subject: [PATCH 47/53] fix: the doc commands of the debugger changed the state
 of the debugged program

---
 CppLisp/CppLispDebugger/Debugger.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/CppLisp/CppLispDebugger/Debugger.cpp b/CppLisp/CppLispDebugger/Debugger.cpp
index 27992ab..ae209bd 100644
--- a/CppLisp/CppLispDebugger/Debugger.cpp
+++ b/CppLisp/CppLispDebugger/Debugger.cpp
@@ -162,6 +162,7 @@ namespace CppLisp
 					string docCmd = "(doc '" + items[1] + ")";
 					try
 					{
+						ScopeStateSaver saver(currentScope);
 						std::shared_ptr<LispVariant> result = Lisp::Eval(docCmd, currentScope, currentScope->ModuleName);
 						debugger->Output->WriteLine(string("{0}"), result->ToString());
 					}
@@ -183,6 +184,7 @@ namespace CppLisp
 					string docCmd = "(searchdoc '" + items[1] + ")";
 					try
 					{
+						ScopeStateSaver saver(currentScope);
 						std::shared_ptr<LispVariant> result = Lisp::Eval(docCmd, currentScope, currentScope->ModuleName);
 						debugger->Output->WriteLine(string("{0}"), result->ToString());
 					}
-- 
2.43.0


From e057b3c818f53a4c8a6f2e2b5b8a4c052a1a46b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:50 +0000
Subject: [PATCH 48/53] fix: leaving a stop inside of the doc and searchdoc
 commands of the debugger does not end the debugger with an uncaught exception

---
 CppLisp/CppLispDebugger/Debugger.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/CppLisp/CppLispDebugger/Debugger.cpp b/CppLisp/CppLispDebugger/Debugger.cpp
index ae209bd..27ef694 100644
--- a/CppLisp/CppLispDebugger/Debugger.cpp
+++ b/CppLisp/CppLispDebugger/Debugger.cpp
@@ -170,6 +170,10 @@ namespace CppLisp
 					{
 						debugger->Output->WriteLine("Exception: " + ex.Message);
 					}
+					catch (...)
+					{
+						debugger->Output->WriteLine("Native Exception");
+					}
 				}
 				else
 				{
@@ -192,6 +196,10 @@ namespace CppLisp
 					{
 						debugger->Output->WriteLine("Exception: " + ex.Message);
 					}
+					catch (...)
+					{
+						debugger->Output->WriteLine("Native Exception");
+					}
 				}
 				else
 				{
-- 
2.43.0


From da94548bf50987bbbb0cb727245f3b9fa3cf3333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:21 +0000
Subject: [PATCH 49/53] fix: library macros capture the caller's names
 (parameters of setq and dotimes)

---
 Library/fuellib.fuel | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/Library/fuellib.fuel b/Library/fuellib.fuel
index 2f266b8..99d5c9b 100755
--- a/Library/fuellib.fuel
+++ b/Library/fuellib.fuel
@@ -79,21 +79,21 @@
   )
 
   ;; implement dotimes function: example: (dotimes (c 10) (println c))
-  (define-macro-eval dotimes (counterinfo statements)
+  (define-macro-eval dotimes (__counterinfo __statements)
       (do
-        (def (first 'counterinfo) 0)
-        (while (eval (list < (first 'counterinfo) (eval (nth 1 'counterinfo))))
+        (def (first '__counterinfo) 0)
+        (while (eval (list < (first '__counterinfo) (eval (nth 1 '__counterinfo))))
           (do
-             (eval 'statements)
-             (setf (rval (first 'counterinfo)) (eval (list + (first 'counterinfo) 1)))
+             (eval '__statements)
+             (setf (rval (first '__counterinfo)) (eval (list + (first '__counterinfo) 1)))
           )
         )
-        (delvar (first 'counterinfo))
+        (delvar (first '__counterinfo))
       )
   )
 
-  (define-macro-eval setq (symbol value)
-    (setf symbol value)
+  (define-macro-eval setq (__symbol __value)
+    (setf __symbol __value)
   )
 
   ;; macro to define structs, example: (defstruct point x y) creates a struct with name point which has two fields with name x and y
-- 
2.43.0


From c2a8bba3f0857d212d63de50da35c9bc8016e566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:22 +0000
Subject: [PATCH 50/53] fix: is-NAME-p of an empty list raises an error instead
 of answering #f

---
 Library/fuellib.fuel | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Library/fuellib.fuel b/Library/fuellib.fuel
index 99d5c9b..9458c94 100755
--- a/Library/fuellib.fuel
+++ b/Library/fuellib.fuel
@@ -108,7 +108,7 @@
 
     (eval 
         (list 'defn (sym (+ "is-" name "-p")) '(data) 
-            `(and (== (type data) 6) (== (first data) ,(sym (+ "#" name))))
+            `(and (== (type data) 6) (> (len data) 0) (== (first data) ,(sym (+ "#" name))))
          )
     )
 
-- 
2.43.0


From 63f3b06429571d0b6c6efba664d056f557716155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:18 +0000
Subject: [PATCH 51/53] fix: a closure assigned to its own variable but read
 the global one of the same name

---
 CppLisp/CppLispInterpreter/Scope.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/CppLisp/CppLispInterpreter/Scope.cpp b/CppLisp/CppLispInterpreter/Scope.cpp
index c1ee33e..ab8db2c 100644
--- a/CppLisp/CppLispInterpreter/Scope.cpp
+++ b/CppLisp/CppLispInterpreter/Scope.cpp
@@ -103,17 +103,17 @@ namespace CppLisp
 			result = item->second;
 //			UpdateFunctionCache(elem->ToLispVariantNotConstRef(), result, isFirst);
 		}
-		// then try to resolve in global scope
-		else if (GlobalScope != null && GlobalScope->ContainsKey(name, &value))
+		// then try to resolve in closure chain scope(s)
+		else if (IsInClosureChain(name, foundClosureScope, &value))
 		{
-			//result = (*GlobalScope)[name];
+			//result = (*foundClosureScope)[name];
 			result = value;
 //			UpdateFunctionCache(elem->ToLispVariantNotConstRef(), result, isFirst);
 		}
-		// then try to resolve in closure chain scope(s)
-		else if (IsInClosureChain(name, foundClosureScope, &value))
+		// then try to resolve in global scope
+		else if (GlobalScope != null && GlobalScope->ContainsKey(name, &value))
 		{
-			//result = (*foundClosureScope)[name];
+			//result = (*GlobalScope)[name];
 			result = value;
 //			UpdateFunctionCache(elem->ToLispVariantNotConstRef(), result, isFirst);
 		}
-- 
2.43.0


From 0a8891939169e1a8443d839f6159831566a14610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:15 +0000
Subject: [PATCH 52/53] fix: an infinite float was not equal to itself

---
 CppLisp/CppLispInterpreter/Variant.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/CppLisp/CppLispInterpreter/Variant.cpp b/CppLisp/CppLispInterpreter/Variant.cpp
index d54dd00..d310f96 100644
--- a/CppLisp/CppLispInterpreter/Variant.cpp
+++ b/CppLisp/CppLispInterpreter/Variant.cpp
@@ -517,7 +517,9 @@ namespace CppLisp
 		}
 		if (l.IsDouble() || r.IsDouble())
 		{
-			return /*Math.A*/fabs(l.ToDouble() - r.ToDouble()) < Tolerance;
+			const double left = l.ToDouble();
+			const double right = r.ToDouble();
+			return left == right || /*Math.A*/fabs(left - right) < Tolerance;		// the difference of equal infinities is not a number
 		}
 		if (l.IsInt() || r.IsInt())
 		{
-- 
2.43.0


From 498ab80b86c5cf1b5de96c31fe46a00c7c312958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:37 +0000
Subject: [PATCH 53/53] fix: a breakpoint was not reached if another one of its
 line had a false condition

---
 CppLisp/CppLispDebugger/Debugger.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/CppLisp/CppLispDebugger/Debugger.cpp b/CppLisp/CppLispDebugger/Debugger.cpp
index 27ef694..280d69a 100644
--- a/CppLisp/CppLispDebugger/Debugger.cpp
+++ b/CppLisp/CppLispDebugger/Debugger.cpp
@@ -425,13 +425,17 @@ namespace CppLisp
 						scope->GlobalScope->Tracing = false;
 						scope->GlobalScope->Debugger = null;
 						std::shared_ptr<LispVariant> result = Lisp::Eval(breakpoint.Condition, scope, scope->ModuleName);
-						return result != null && result->BoolValue();
+						if (result != null && result->BoolValue())
+						{
+							return true;
+						}
 					}
 					catch (...)
 					{
 						Output->WriteLine("Error: bad condition for line {0}: {1}", std::to_string(breakpoint.LineNo), breakpoint.Condition);
-						return false;
 					}
+					// another breakpoint may be set for the same line (i. e. without a module name)
+					continue;
 				}
 				return true;
 			}
-- 
2.43.0

