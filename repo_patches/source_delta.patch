From 23299e71d272e3cba9490d3276228383d0515612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:54 +0000
Subject: [PATCH 01/93] fix: AVG counted NULL values that follow a non-NULL
 value of the same group

---
 syncanysql/calculaters/aggregate_calculater.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/syncanysql/calculaters/aggregate_calculater.py b/syncanysql/calculaters/aggregate_calculater.py
index 577c453..1b630dd 100644
--- a/syncanysql/calculaters/aggregate_calculater.py
+++ b/syncanysql/calculaters/aggregate_calculater.py
@@ -188,11 +188,11 @@ class AggregateMinCalculater(AggregateCalculater):
 class AggregateAvgCalculater(StateAggregateCalculater):
     def aggregate(self, state_value, data_value):
         try:
-            state_value["count_value"] += 1
             if isinstance(data_value, NumberDecimalTypes):
                 state_value["sum_value"] += data_value
             else:
                 state_value["sum_value"] += ensure_number(data_value)
+            state_value["count_value"] += 1
             return state_value
         except:
             if data_value is None:
-- 
2.43.0


From 48a1c23d69b4acca630f14c1f8630fcae7167ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:54 +0000
Subject: [PATCH 02/93] fix: JSON_OBJECTAGG lost every pair when partial
 results of several batches were combined

---
 syncanysql/calculaters/aggregate_calculater.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/syncanysql/calculaters/aggregate_calculater.py b/syncanysql/calculaters/aggregate_calculater.py
index 1b630dd..db953cb 100644
--- a/syncanysql/calculaters/aggregate_calculater.py
+++ b/syncanysql/calculaters/aggregate_calculater.py
@@ -431,7 +431,8 @@ class AggregateJsonObjectaggCalculater(StateAggregateCalculater):
             return state_value
         if state_value is None:
             return data_value
-        return state_value.update(data_value)
+        state_value.update(data_value)
+        return state_value
 
     def final_value(self, state_value):
         if state_value is None:
-- 
2.43.0


From bb64ccf1a0f8433a799d0e30621741f779915f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:51 +0000
Subject: [PATCH 03/93] fix: LIMIT, OFFSET and ORDER BY were applied to each
 batch instead of the whole result

---
 syncanysql/taskers/query.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/syncanysql/taskers/query.py b/syncanysql/taskers/query.py
index 2cb7b09..41d9990 100644
--- a/syncanysql/taskers/query.py
+++ b/syncanysql/taskers/query.py
@@ -131,6 +131,8 @@ class QueryTasker(object):
             elif [aggregate_column["final_value"] for aggregate_column in aggregate["window_schema"].values()
                   if aggregate_column["final_value"]]:
                 require_reduce = True
+        if batch > 0 and self.config.get("pipelines"):
+            require_reduce = True
         if require_reduce and isinstance(self.config["schema"], dict) and not arguments.get("@streaming"):
             if not aggregate:
                 aggregate = copy.deepcopy(DEAULT_AGGREGATE)
-- 
2.43.0


From 90933d01f9bcaebc794c20612c80bb34e34f1ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:05 +0000
Subject: [PATCH 04/93] fix: LIMIT on DISTINCT or GROUP BY without aggregates
 limited the source rows instead of the result

---
 syncanysql/compiler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 60d68e4..280b3d5 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -538,7 +538,7 @@ class Compiler(object):
         if limit_value != 0 or offset_value > 0:
             if config["predicate"] or config["intercept"] or (config.get("aggregate") and
                                                               (config["aggregate"]["schema"] or config["aggregate"]["window_schema"])) \
-                    or config["pipelines"] or limit_value <= 0:
+                    or config["pipelines"] or limit_value <= 0 or group_expression or expression.args.get("distinct"):
                 if limit_value != 0:
                     config["pipelines"].append([">>@array::slice", "$.*|array", offset_value,
                                                 (offset_value + limit_value) if limit_value > 0 else limit_value])
-- 
2.43.0


From 07fe6590974b5ebad32b5a293704bc125f35841c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:56 +0000
Subject: [PATCH 05/93] fix: LIMIT returned too many rows when a join matches
 several rows

---
 syncanysql/compiler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 280b3d5..eb506fd 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -545,8 +545,8 @@ class Compiler(object):
                 else:
                     config["pipelines"].append([">>@array::slice", "$.*|array", offset_value])
             else:
-                if offset_value > 0:
-                    config["pipelines"].append([">>@array::slice", "$.*|array", offset_value])
+                if offset_value > 0 or join_tables:
+                    config["pipelines"].append([">>@array::slice", "$.*|array", offset_value, offset_value + limit_value])
                 arguments["@limit"] = offset_value + limit_value
 
         if group_expression and ("aggregate" not in config or not config["aggregate"] or not config["aggregate"]["schema"]):
-- 
2.43.0


From 2390637cf1748fcbde7c06faad763b54a41febaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:31 +0000
Subject: [PATCH 06/93] fix: SELECT * with LIMIT, OFFSET or ORDER BY was
 limited per batch

---
 syncanysql/taskers/query.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/syncanysql/taskers/query.py b/syncanysql/taskers/query.py
index 41d9990..0e345d6 100644
--- a/syncanysql/taskers/query.py
+++ b/syncanysql/taskers/query.py
@@ -133,7 +133,7 @@ class QueryTasker(object):
                 require_reduce = True
         if batch > 0 and self.config.get("pipelines"):
             require_reduce = True
-        if require_reduce and isinstance(self.config["schema"], dict) and not arguments.get("@streaming"):
+        if require_reduce and (isinstance(self.config["schema"], dict) or not aggregate) and not arguments.get("@streaming"):
             if not aggregate:
                 aggregate = copy.deepcopy(DEAULT_AGGREGATE)
             self.compile_reduce_config(aggregate)
@@ -319,7 +319,9 @@ class QueryTasker(object):
                 is_multi_group_key = True
             elif len(aggregate["key"]) == 3 and aggregate["key"][0] == "#make" and aggregate["key"][2][0] == ":@aggregate_key":
                 is_multi_group_key = True
-        for key, column in self.config["schema"].items():
+        if not isinstance(self.config["schema"], dict):
+            config["schema"] = self.config["schema"]
+        for key, column in self.config["schema"].items() if isinstance(self.config["schema"], dict) else ():
             if key in aggregate["schema"]:
                 if is_multi_group_key:
                     config["schema"][key] = ["#aggregate", ["@aggregate_key", "$._aggregate_key_"], aggregate["schema"][key]["reduce"]]
@@ -342,8 +344,9 @@ class QueryTasker(object):
         config, arguments = copy.deepcopy(self.reduce_config), copy.deepcopy(arguments)
         aggregate = config.pop("aggregate", None)
         if final_reduce:
-            config["schema"].pop("_aggregate_key_", None)
-            for key, column in config["schema"].items():
+            schema = config["schema"] if isinstance(config["schema"], dict) else {}
+            schema.pop("_aggregate_key_", None)
+            for key, column in schema.items():
                 if key in aggregate["schema"] and aggregate["schema"][key]["final_value"]:
                     config["schema"][key] = aggregate["schema"][key]["final_value"]
                 else:
-- 
2.43.0


From f7abafe6c3d9dc25f62c8414ca4ef54aeff2db34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:55 +0000
Subject: [PATCH 07/93] fix: window functions were evaluated per batch instead
 of over the whole window

---
 syncanysql/taskers/query.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/syncanysql/taskers/query.py b/syncanysql/taskers/query.py
index 0e345d6..7a4d2ec 100644
--- a/syncanysql/taskers/query.py
+++ b/syncanysql/taskers/query.py
@@ -120,6 +120,8 @@ class QueryTasker(object):
             dependency_tasker.start(name, executor, session_config, manager, dependency_arguments)
             dependency_taskers.append(dependency_tasker)
 
+        if aggregate and aggregate.get("window_schema") and not arguments.get("@streaming"):
+            arguments["@batch"] = 0
         limit, batch = int(arguments.get("@limit", 0)), int(arguments.get("@batch", 0))
         require_reduce = False
         if aggregate and (aggregate.get("schema") or aggregate["window_schema"]):
-- 
2.43.0


From 36438add2ec9bc6828700bf91f701dbd90a58559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:18 +0000
Subject: [PATCH 08/93] fix: INSERT INTO ... WITH ... SELECT ignored the WITH
 clause

---
 syncanysql/compiler.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index eb506fd..2558642 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -310,6 +310,8 @@ class Compiler(object):
 
         if isinstance(expression.args["expression"], (sqlglot_expressions.Select, sqlglot_expressions.Union)):
             select_expression = expression.args["expression"]
+            if select_expression.args.get("with"):
+                self.compile_with(select_expression.args.get("with"), config, arguments)
             if isinstance(select_expression, sqlglot_expressions.Union):
                 self.compile_union(select_expression, config, arguments)
             else:
-- 
2.43.0


From 5f00bc5f6a63a4dcecc9c7b5042715840faebdd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:54 +0000
Subject: [PATCH 09/93] fix: rows of a WITH query leaked into later statements

---
 syncanysql/compiler.py      | 14 +++++++++++---
 syncanysql/taskers/query.py |  2 +-
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 2558642..a99b675 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -109,6 +109,7 @@ class Compiler(object):
         self.env_variables = env_variables
         self.name = name
         self.mapping = {}
+        self.with_tables = {}
 
     def compile(self, sql, arguments):
         escape_sql = sql
@@ -222,6 +223,7 @@ class Compiler(object):
             "pipelines": []
         })
 
+        with_tables = dict(self.with_tables)
         if expression.args.get("with"):
             self.compile_with(expression.args.get("with"), config, arguments)
         if isinstance(expression, sqlglot_expressions.Union):
@@ -232,14 +234,19 @@ class Compiler(object):
             self.compile_select(self.optimize_rewrite(expression, config, arguments), config, arguments)
         else:
             raise SyncanySqlCompileException('unknown sql "%s"' % self.to_sql(expression))
+        self.with_tables = with_tables
         return config
 
     def compile_with(self, expression, config, arguments):
         for sub_expression in expression.args["expressions"]:
             table_name = sub_expression.args["alias"].name
+            with_table_name = "__with_" + str(uuid.uuid1().int) + "_" + table_name
+            if expression.args.get("recursive"):
+                self.with_tables[table_name] = with_table_name
             subquery_arguments = {key: arguments[key] for key in CONST_CONFIG_KEYS if key in arguments}
             subquery_config = self.compile_query(sub_expression.args["this"], subquery_arguments)
-            subquery_config["output"] = "&.--." + table_name + "::" + subquery_config["output"].split("::")[-1].split(" use ")[0] + " use I"
+            self.with_tables[table_name] = with_table_name
+            subquery_config["output"] = "&.--." + with_table_name + "::" + subquery_config["output"].split("::")[-1].split(" use ")[0] + " use I"
             subquery_config["name"] = subquery_config["name"] + "#" + table_name + "#select"
             arguments.update({subquery_config["name"] + "@" + key: value for key, value in subquery_arguments.items()})
             output_db_table_name = subquery_config["output"].split("::")[0]
@@ -269,7 +276,7 @@ class Compiler(object):
         return subquery_name, subquery_config
 
     def compile_insert_into(self, expression, config, arguments):
-        columns = []
+        columns, with_tables, self.with_tables = [], self.with_tables, {}
         if isinstance(expression.args["this"], sqlglot_expressions.Table):
             table_info = self.parse_table(expression.args["this"], config, arguments)
         elif isinstance(expression.args["this"], sqlglot_expressions.Schema):
@@ -292,6 +299,7 @@ class Compiler(object):
                 columns.append([column_name, typing_filters[0] if typing_filters else None])
         else:
             raise SyncanySqlCompileException('unknown insert into, related sql "%s"' % self.to_sql(expression))
+        self.with_tables = with_tables
         if not expression.args.get("expression"):
             raise SyncanySqlCompileException('unknown insert into, related sql "%s"' % self.to_sql(expression))
 
@@ -2629,7 +2637,7 @@ class Compiler(object):
 
         return {
             "db": db_name,
-            "name": table_name,
+            "name": self.with_tables.get(table_name, table_name) if db_name == "--" and not expression.args.get("db") else table_name,
             "table_name": table_alias if table_alias else ((db_name + "." + table_name if db_name else table_name)),
             "table_alias": table_alias,
             "origin_name": origin_name,
diff --git a/syncanysql/taskers/query.py b/syncanysql/taskers/query.py
index 7a4d2ec..f967779 100644
--- a/syncanysql/taskers/query.py
+++ b/syncanysql/taskers/query.py
@@ -397,7 +397,7 @@ class QueryTasker(object):
                 self.temporary_memory_manager.use_collection(tasker.loader.name)
 
         if hasattr(tasker.outputer, "name"):
-            if tasker.outputer.name.startswith("--.__subquery_") or tasker.outputer.name.startswith("--.__unionquery_"):
+            if tasker.outputer.name.startswith(("--.__subquery_", "--.__unionquery_", "--.__with_")):
                 self.temporary_memory_manager.add_collection(tasker.outputer.name)
 
         loader_or_outputers = [tasker.loader, tasker.outputer] + list(tasker.join_loaders.values())
-- 
2.43.0


From 169d820a128c42a3bfec6802271516575a869e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:53 +0000
Subject: [PATCH 10/93] fix: SELECT of an aggregate INTO a variable returned an
 empty list and left its rows behind

---
 syncanysql/taskers/into.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/syncanysql/taskers/into.py b/syncanysql/taskers/into.py
index 7ee101d..85e81bc 100644
--- a/syncanysql/taskers/into.py
+++ b/syncanysql/taskers/into.py
@@ -7,13 +7,15 @@ class IntoTasker(object):
     def __init__(self, tasker, config):
         self.tasker = tasker
         self.config = config
+        self.output_name = None
 
     def start(self, name, executor, session_config, manager, arguments):
         for variable in self.config["variables"]:
             if variable in executor.env_variables:
                 continue
             executor.env_variables[variable] = None
-        self.tasker.config["output"] = "&.--.__into_" + str(id(self)) + "::" + self.tasker.config["output"].split("::")[-1]
+        self.output_name = "--.__into_" + str(id(self))
+        self.tasker.config["output"] = "&." + self.output_name + "::" + self.tasker.config["output"].split("::")[-1]
         self.tasker.config["name"] = self.tasker.config["name"] + "#into"
         self.tasker.start(name, executor, session_config, manager, arguments)
         return [self]
@@ -24,14 +26,16 @@ class IntoTasker(object):
             if not core_tasker:
                 return 1
             database = core_tasker.outputer.db
-            name = core_tasker.outputer.name
             schema_keys = tuple(core_tasker.schema.keys()) if isinstance(core_tasker.schema, dict) else None
-            self.tasker.run(executor, session_config, manager)
-
-            query = database.query(name, ["id"])
-            datas = query.commit()
-            delete = database.delete(name, ["id"])
-            delete.commit()
+            try:
+                self.tasker.run(executor, session_config, manager)
+                query = database.query(self.output_name, ["id"])
+                datas = query.commit()
+            finally:
+                delete = database.delete(self.output_name, ["id"])
+                delete.commit()
+            if schema_keys and self.tasker.reduce_config:
+                schema_keys = tuple(datas[0].keys()) if datas else None
 
             if not schema_keys:
                 value = datas[0] if len(datas) == 1 else datas
-- 
2.43.0


From 631f6fecf1c460d636b3cafd402610a063f8c5de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:26 +0000
Subject: [PATCH 11/93] fix: correlated scalar subqueries returned NULL under
 @batch and for averages

---
 .../calculaters/query_tasker_calculater.py     | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/syncanysql/calculaters/query_tasker_calculater.py b/syncanysql/calculaters/query_tasker_calculater.py
index 1c4706a..4353d5e 100644
--- a/syncanysql/calculaters/query_tasker_calculater.py
+++ b/syncanysql/calculaters/query_tasker_calculater.py
@@ -15,6 +15,7 @@ class ExecuteQueryTaskerCalculater(LoaderCalculater):
         self.arguments = None
         self.executor = None
         self.tasker = None
+        self.output_name = None
         self.tasker_index = 0
 
     def start(self, tasker, loader, arguments, task_config, **kwargs):
@@ -44,12 +45,14 @@ class ExecuteQueryTaskerCalculater(LoaderCalculater):
                         if not key or not isinstance(key, str):
                             continue
                         executor.env_variables["@" + key] = value
-                database, collection_name = self.tasker.tasker.outputer.db, self.tasker.tasker.outputer.name
-                executor.execute()
-                query = database.query(collection_name, ["id"])
-                datas = query.commit()
-                delete = database.delete(collection_name, ["id"])
-                delete.commit()
+                database = self.tasker.tasker.outputer.db
+                try:
+                    executor.execute()
+                    query = database.query(self.output_name, ["id"])
+                    datas = query.commit()
+                finally:
+                    delete = database.delete(self.output_name, ["id"])
+                    delete.commit()
                 return datas
         finally:
             self.executor, self.tasker = None, None
@@ -64,7 +67,8 @@ class ExecuteQueryTaskerCalculater(LoaderCalculater):
             self.tasker_index = current_executor.distribute_tasker_index()
         with Executor(current_executor.manager, current_executor.session_config, current_executor) as executor:
             config = copy.deepcopy(self.config)
-            config["output"] = "&.--.__queryTasker_" + str(id(executor)) + "::" + config["output"].split("::")[-1]
+            self.output_name = "--.__queryTasker_" + str(id(executor))
+            config["output"] = "&." + self.output_name + "::" + config["output"].split("::")[-1]
             config["name"] = config["name"] + "#queryTasker"
             tasker = QueryTasker(config, is_inner_subquery=True)
             tasker.tasker_index = self.tasker_index
-- 
2.43.0


From 6be1332a1e8c73b51671d24d5a6e893b0ba9c156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:22 +0000
Subject: [PATCH 12/93] fix: statements left over from a failed execute() ran
 in the next one

---
 syncanysql/__init__.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/syncanysql/__init__.py b/syncanysql/__init__.py
index cac1494..2d31197 100644
--- a/syncanysql/__init__.py
+++ b/syncanysql/__init__.py
@@ -55,8 +55,12 @@ class ExecuterContext(object):
         sqls = sql_parser.split()
         self.__class__._execute_index += 1
         with self.executor as executor:
-            executor.run("execute[%d]" % self._execute_index, sqls)
-            executor.execute()
+            try:
+                executor.run("execute[%d]" % self._execute_index, sqls)
+                executor.execute()
+            except BaseException:
+                executor.runners.clear()
+                raise
 
     def get_database(self, db=None):
         return self.engine.get_database(db)
-- 
2.43.0


From 7de477631f4659b8dd7e8fbf080f92dcc8b5504d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:48 +0000
Subject: [PATCH 13/93] fix: precedence of the home and current directory
 config files changed from run to run

---
 syncanysql/config.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/syncanysql/config.py b/syncanysql/config.py
index 8fd3fa3..39dd359 100644
--- a/syncanysql/config.py
+++ b/syncanysql/config.py
@@ -131,8 +131,8 @@ class GlobalConfig(object):
         home_config_path, cwd_config_path = self.get_home(), os.path.abspath(os.getcwd())
         if home_config_path not in sys.path:
             sys.path.append(home_config_path)
-        for filename in {os.path.join(home_config_path, "config.json"), os.path.join(home_config_path, "config.yaml"),
-                         os.path.join(cwd_config_path, "config.json"), os.path.join(cwd_config_path, "config.yaml")}:
+        for filename in (os.path.join(home_config_path, "config.json"), os.path.join(home_config_path, "config.yaml"),
+                         os.path.join(cwd_config_path, "config.json"), os.path.join(cwd_config_path, "config.yaml")):
             if not os.path.exists(filename):
                 continue
             if "extends" not in self.config or not isinstance(self.config["extends"], list):
-- 
2.43.0


From ae22c8ed7620e2f0d45d4d0da4c618779fc89be8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:50 +0000
Subject: [PATCH 14/93] fix: concurrent contexts could see a half merged
 session config

---
 syncanysql/config.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/syncanysql/config.py b/syncanysql/config.py
index 39dd359..debf391 100644
--- a/syncanysql/config.py
+++ b/syncanysql/config.py
@@ -298,14 +298,13 @@ class SessionConfig(GlobalConfig):
         self.tasker_extend_config = None
 
     def get(self):
-        if self.merged_config is None:
-            session_config, self.config = self.config, copy.deepcopy(CoreTasker.DEFAULT_CONFIG)
-            try:
-                self.merge_config(copy.deepcopy(self.parent_config.get()))
-                self.merge_config(copy.deepcopy(session_config))
-            finally:
-                self.merged_config, self.config = self.config, session_config
-        return self.merged_config
+        merged_config = self.merged_config
+        if merged_config is None:
+            merged = GlobalConfig()
+            merged.merge_config(copy.deepcopy(self.parent_config.get()))
+            merged.merge_config(copy.deepcopy(self.config))
+            self.merged_config = merged_config = merged.config
+        return merged_config
 
     def set(self, key, value):
         super(SessionConfig, self).set(key, value)
-- 
2.43.0


From 97d0d7209bdfd979094f42f89c54e76a027dab96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:10 +0000
Subject: [PATCH 15/93] fix: SET GLOBAL of a config key always failed

---
 syncanysql/config.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/syncanysql/config.py b/syncanysql/config.py
index debf391..8965050 100644
--- a/syncanysql/config.py
+++ b/syncanysql/config.py
@@ -311,6 +311,12 @@ class SessionConfig(GlobalConfig):
         self.merged_config = None
         self.tasker_extend_config = None
 
+    def merge(self):
+        self.merged_config = None
+        self.tasker_extend_config = None
+        if isinstance(self.parent_config, SessionConfig):
+            self.parent_config.merge()
+
     def session(self):
         return SessionConfig(self.global_config, self)
 
-- 
2.43.0


From 6d161f2917aa926330b28dd6a2c14dc595778d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:13 +0000
Subject: [PATCH 16/93] fix: push_memory_datas and terminal called methods that
 do not exist

---
 syncanysql/__init__.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/syncanysql/__init__.py b/syncanysql/__init__.py
index 2d31197..443b546 100644
--- a/syncanysql/__init__.py
+++ b/syncanysql/__init__.py
@@ -31,7 +31,7 @@ class ExecuterContext(object):
 
     @classmethod
     def current(cls):
-        return cls._thread_local.current_executer_context
+        return getattr(cls._thread_local, "current_executer_context", None)
 
     def __init__(self, engine, executor):
         self.engine = engine
@@ -72,7 +72,7 @@ class ExecuterContext(object):
         return self.engine.pop_memory_datas(name)
 
     def push_memory_datas(self, name, datas):
-        return self.engine.push_datas(name, datas)
+        return self.engine.push_memory_datas(name, datas)
 
     def terminal(self):
         if not self.executor:
@@ -197,7 +197,7 @@ class ScriptEngine(object):
                 return
             self.executor.terminate()
             return
-        executer_context.terminate()
+        executer_context.terminal()
 
     def close(self):
         if self.manager:
@@ -253,7 +253,7 @@ def pop_memory_datas(name):
 
 
 def push_memory_datas(name, datas):
-    return ScriptEngine.instance().push_datas(name, datas)
+    return ScriptEngine.instance().push_memory_datas(name, datas)
 
 
 def terminal():
-- 
2.43.0


From 11eef28fa627d886c70137c244adb0f14b71524a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:53 +0000
Subject: [PATCH 17/93] fix: SQL piped on standard input was never executed

---
 syncanysql/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/syncanysql/main.py b/syncanysql/main.py
index 94db858..af0249e 100644
--- a/syncanysql/main.py
+++ b/syncanysql/main.py
@@ -57,7 +57,7 @@ def main():
                     sql_parser = SqlParser(content[1:-1] if content[0] in ('"', "'") and content[-1] in ('"', "'") else content)
                     sqls = sql_parser.split()
                     executor.run("pipe", sqls)
-                    get_logger().info("execute pipe sql start %d task", sys.argv[1], executor.get_tasker_index())
+                    get_logger().info("execute pipe sql start %d task", executor.get_tasker_index())
                     try:
                         executor.execute()
                     except Exception as e:
-- 
2.43.0


From c5ab2adac0cacfec2e0602dd3429a57481f9cded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:53 +0000
Subject: [PATCH 18/93] fix: terminate stopped only the current statement and
 the following ones still ran

---
 syncanysql/executor.py      | 12 +++++++++---
 syncanysql/taskers/into.py  |  1 -
 syncanysql/taskers/query.py |  3 ++-
 3 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/syncanysql/executor.py b/syncanysql/executor.py
index 84f3af6..3c86feb 100644
--- a/syncanysql/executor.py
+++ b/syncanysql/executor.py
@@ -96,6 +96,7 @@ class Executor(object):
         self.parent_executor = parent_executor
         self.runners = deque()
         self.tasker = None
+        self.terminated = False
         if self.global_env_variables is None:
             self.__class__.global_env_variables = EnvVariables.build_global(session_config)
         self.env_variables = EnvVariables(parent_executor.env_variables if parent_executor
@@ -169,17 +170,22 @@ class Executor(object):
 
     def execute(self):
         self._thread_local.current_executor = self
-        while self.runners:
+        self.terminated = False
+        while self.runners and not self.terminated:
             self.tasker = self.runners.popleft()
             try:
                 self.tasker.run(self, self.session_config, self.manager)
             finally:
                 self.tasker = None
+        if self.terminated:
+            self.runners.clear()
 
     def terminate(self):
-        if not self.tasker:
+        tasker = self.tasker
+        if not tasker:
             return
-        self.tasker.terminate()
+        self.terminated = True
+        tasker.terminate()
 
     def add_runner(self, tasker):
         self.runners.append(tasker)
diff --git a/syncanysql/taskers/into.py b/syncanysql/taskers/into.py
index 85e81bc..3f5958f 100644
--- a/syncanysql/taskers/into.py
+++ b/syncanysql/taskers/into.py
@@ -75,4 +75,3 @@ class IntoTasker(object):
         if not self.tasker:
             return
         self.tasker.terminate()
-        self.tasker = None
diff --git a/syncanysql/taskers/query.py b/syncanysql/taskers/query.py
index f967779..db43ddf 100644
--- a/syncanysql/taskers/query.py
+++ b/syncanysql/taskers/query.py
@@ -214,10 +214,11 @@ class QueryTasker(object):
                 yield TaskerYieldNext()
 
     def terminate(self):
+        for dependency_tasker in self.dependency_taskers:
+            dependency_tasker.terminate()
         if not self.tasker:
             return
         self.tasker.terminate()
-        self.tasker = None
 
     def compile_distinct_config(self, aggregate):
         subquery_name = "__subquery_" + str(uuid.uuid1().int) + "_distinct"
-- 
2.43.0


From 9199c6c71271476bc98c47c3ec65da12da4e7010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:50 +0000
Subject: [PATCH 19/93] fix: files of different formats or look-alike
 directories in one query were read as one database

---
 syncanysql/compiler.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index a99b675..656aa39 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -2615,14 +2615,12 @@ class Compiler(object):
                 if "databases" not in config:
                     config["databases"] = []
                 for d in config["databases"]:
-                    if d["name"] == path_db_name:
-                        d.update({"name": path_db_name, "driver": db_driver, "path": path})
-                        database = d
-                        break
                     if d.get("driver") == db_driver and d.get("path") == path and not db_params:
                         database = d
                         break
                 if not database:
+                    while path_db_name in [d["name"] for d in config["databases"]]:
+                        path_db_name = path_db_name + "_"
                     database = {"name": path_db_name, "driver": db_driver, "path": path}
                     config["databases"].append(database)
                 if db_params:
-- 
2.43.0


From de170c28425b7b84bc3173d0ce97f3a5c44fb9dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:52 +0000
Subject: [PATCH 20/93] fix: a crash while the CLI trimmed its history file
 lost the history

---
 syncanysql/prompt.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/syncanysql/prompt.py b/syncanysql/prompt.py
index 7210708..620e01c 100644
--- a/syncanysql/prompt.py
+++ b/syncanysql/prompt.py
@@ -178,11 +178,12 @@ class CliFileHistory(FileHistory):
 
         if len(strings) <= 50:
             return reversed(strings)
-        with open(self.filename, "wb") as f:
+        with open(self.filename + ".tmp", "wb") as f:
             for i in range(50):
                 f.write(("\n%s" % time_strings[i - 50]).encode("utf-8"))
                 for line in strings[i - 50].split("\n"):
                     f.write(("+%s\n" % line).encode("utf-8"))
+        os.replace(self.filename + ".tmp", self.filename)
         return reversed(strings)
     
     def store_string(self, string):
-- 
2.43.0


From 973730faf290eb5f4ee4183636e02c64faea88e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:26 +0000
Subject: [PATCH 21/93] fix: string literals with Latin-1 characters were
 corrupted

---
 syncanysql/compiler.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 656aa39..9beeee9 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -2719,17 +2719,17 @@ class Compiler(object):
                 typing_filter = "int" if expression.is_int else "float"
             elif isinstance(value, str):
                 try:
-                    escape_values, escape_chars, encoding = [], [], os.environ.get("SYNCANYENCODING", "utf-8")
+                    escape_values, escape_chars = [], []
                     for c in value:
-                        if ord(c) <= 256:
+                        if ord(c) < 256:
                             escape_chars.append(c)
                             continue
                         if escape_chars:
-                            escape_values.append("".join(escape_chars).encode(encoding).decode("unicode_escape"))
+                            escape_values.append("".join(escape_chars).encode("latin-1").decode("unicode_escape"))
                             escape_chars = []
                         escape_values.append(c)
                     if escape_chars:
-                        escape_values.append("".join(escape_chars).encode(encoding).decode("unicode_escape"))
+                        escape_values.append("".join(escape_chars).encode("latin-1").decode("unicode_escape"))
                     value = "".join(escape_values)
                 except:
                     pass
-- 
2.43.0


From a59762c061aefec2ad51f053f8531250d48028ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:49 +0000
Subject: [PATCH 22/93] fix: window ORDER BY over several columns ignored
 directions, NULLs and other windows' partitions

---
 syncanysql/calculaters/__init__.py          |  1 +
 syncanysql/calculaters/window_calculater.py | 19 +++++++++++++++++++
 syncanysql/compiler.py                      | 20 +++++++++++++-------
 3 files changed, 33 insertions(+), 7 deletions(-)

diff --git a/syncanysql/calculaters/__init__.py b/syncanysql/calculaters/__init__.py
index 53b7ed9..5c2459c 100644
--- a/syncanysql/calculaters/__init__.py
+++ b/syncanysql/calculaters/__init__.py
@@ -36,6 +36,7 @@ SQL_CALCULATERS = {
     "group_bit_xor": AggregateGroupBitXorCalculater,
     "json_arrayagg": AggregateJsonArrayaggCalculater,
     "json_objectagg": AggregateJsonObjectaggCalculater,
+    "window_order_key": WindowOrderKeyCalculater,
     "row_number": WindowAggregateRowNumberCalculater,
     "rank": WindowAggregateRankCalculater,
     "dense_rank": WindowAggregateDenseRankCalculater,
diff --git a/syncanysql/calculaters/window_calculater.py b/syncanysql/calculaters/window_calculater.py
index e3ed1f6..5ea8d7b 100644
--- a/syncanysql/calculaters/window_calculater.py
+++ b/syncanysql/calculaters/window_calculater.py
@@ -4,9 +4,28 @@
 
 from syncany.calculaters.calculater import Calculater
 from syncany.filters import IntFilter, FloatFilter
+from syncany.utils import CmpValue
 from ..errors import SyncanySqlExecutorException
 
 
+class WindowOrderKey(tuple):
+    descs = ()
+
+    def __lt__(self, other):
+        for i in range(len(self)):
+            if self[i] == other[i]:
+                continue
+            return CmpValue(self[i], self.descs[i]) < CmpValue(other[i], self.descs[i])
+        return False
+
+
+class WindowOrderKeyCalculater(Calculater):
+    def calculate(self, values, descs):
+        order_key = WindowOrderKey(values)
+        order_key.descs = descs
+        return order_key
+
+
 class WindowAggregateCalculater(Calculater):
     def __init__(self, *args, **kwargs):
         super(WindowAggregateCalculater, self).__init__(*args, **kwargs)
diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 9beeee9..3aec250 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -1400,10 +1400,16 @@ class Compiler(object):
                                                      join_tables, value_expressions) if value_expressions else None
             is_window_aggregate_calculate, aggregate_calculate, final_calculate = self.compile_window_calculate(window_expression)
             partition_calculate = "$.partition_key" if partition_column is not None else None
+            # windows with equal order options share their partitions, so the name has to identify the whole window
+            order_name = ",".join([self.generate_sql(partition) for partition in partition_expression or []] + ["order"]
+                                  + [self.generate_sql(order) for order in (order_expression.args["expressions"]
+                                                                            if order_expression else [])]).replace(".", "_")
             if order_column is not None:
-                order_calculate = {"valuer": "$.order_key", "orders": order_column["orders"]}
+                # several order columns are compared, each in its own direction, by the order key itself
+                order_desc = order_column["descs"][0] if len(order_column["descs"]) == 1 else False
+                order_calculate = {"valuer": "$.order_key", "orders": [[order_name, order_desc]]}
             elif is_window_aggregate_calculate:
-                order_calculate = {"valuer": ["#const", 0], "orders": []}
+                order_calculate = {"valuer": ["#const", 0], "orders": [[order_name, False]]}
             else:
                 order_calculate = None
             value_calculate = "$.value" if value_column is not None else None
@@ -1421,7 +1427,8 @@ class Compiler(object):
                     if len(partition_column) == 1 else ["#make", partition_column, [":@aggregate_key", "$.*"]]
             if order_column is not None:
                 window_aggregate_column[1]["order_key"] = order_column["valuer"][0] \
-                    if len(order_column["valuer"]) == 1 else ["#make", order_column["valuer"], [":@aggregate_key", "$.*"]]
+                    if len(order_column["valuer"]) == 1 else ["#make", order_column["valuer"],
+                                                              [":@window_order_key", "$.*", ["#const", order_column["descs"]]]]
             if value_column is not None:
                 window_aggregate_column[1]["value"] = value_column[0] if len(value_column) == 1 else ["#make", value_column]
 
@@ -1481,13 +1488,12 @@ class Compiler(object):
         return key_column
 
     def compile_window_order(self, expression, config, arguments, primary_table, join_tables):
-        value_order_expressions, orders = [], []
+        value_order_expressions, descs = [], []
         for order_expression in expression.args["expressions"]:
-            order_key = self.generate_sql(order_expression.args["this"])
-            orders.append([order_key, order_expression.args.get("desc")])
+            descs.append(bool(order_expression.args.get("desc")))
             value_order_expressions.append(order_expression.args["this"])
         return {"valuer": self.compile_window_key(value_order_expressions, config, arguments,
-                                                  primary_table, join_tables), "orders": orders}
+                                                  primary_table, join_tables), "descs": descs}
 
     def compile_window_value(self, expression, config, arguments, primary_table, join_tables, value_expressions):
         if isinstance(expression, sqlglot_expressions.Count) and isinstance(expression.args["this"],
-- 
2.43.0


From f2c787f9ae26e36f40a06e4d197c8cb82f4b5c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:15 +0000
Subject: [PATCH 23/93] fix: INNER JOIN next to other joins filtered by the
 wrong tables

---
 syncanysql/compiler.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 3aec250..3de6c3e 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -3097,6 +3097,8 @@ class Compiler(object):
 
         inner_calculate_fields = []
         for join_expression in expression.args["joins"]:
+            if not join_expression.kind or join_expression.kind.lower() != "inner":
+                continue
             join_table = {"table_name": self.optimize_rewrite_parse_table(expression, config, arguments,
                                                                           join_expression.args["this"])["table_name"],
                           "related_tables": set([]), "on_expressions": [], "const_expressions": [],
@@ -3108,11 +3110,11 @@ class Compiler(object):
                                                       join_table["table_name"], join_table["related_tables"],
                                                       join_table["on_expressions"], join_table["const_expressions"],
                                                       join_table["calculate_expressions"])
-            if primary_table["table_name"] in join_table["related_tables"]:
-                for on_expression in join_table["on_expressions"]:
-                    self.parse_calculate(on_expression, config, arguments, primary_table, inner_calculate_fields)
-        inner_calculate_fields = [calculate_field for calculate_field in inner_calculate_fields
-                                  if calculate_field["table_name"] and calculate_field["table_name"] != primary_table["table_name"]]
+            join_calculate_fields = []
+            for on_expression in join_table["on_expressions"]:
+                self.parse_calculate(on_expression, config, arguments, primary_table, join_calculate_fields)
+            inner_calculate_fields.extend([calculate_field for calculate_field in join_calculate_fields
+                                           if calculate_field["table_name"] == join_table["table_name"]])
         if not inner_calculate_fields:
             return expression
 
-- 
2.43.0


From 6361245c476c151a9c4a71d5dec7a8ad55c4b9b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:12 +0000
Subject: [PATCH 24/93] fix: WHERE of a RIGHT JOIN query was also applied as
 join condition

---
 syncanysql/compiler.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 3de6c3e..405f88b 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -3067,7 +3067,10 @@ class Compiler(object):
             if join_table["join_type"] == "right":
                 return expression
             sql.append("LEFT JOIN " + self.generate_sql(join_table["table_expression"]))
-            on_expressions = join_table["on_expressions"] + join_table["const_expressions"] + join_table["calculate_expressions"]
+            on_expressions = join_table["on_expressions"] + join_table["const_expressions"]
+            if join_table is not primary_table:
+                # those of the primary table are the conditions of WHERE
+                on_expressions = on_expressions + join_table["calculate_expressions"]
             if on_expressions:
                 sql.append("ON " + " AND ".join([self.generate_sql(on_expression) for on_expression in on_expressions]))
 
-- 
2.43.0


From 934d87d96b9e7d35c6bee85d95ef5ada6fab83c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:50 +0000
Subject: [PATCH 25/93] fix: a join condition on a column of another table
 filtered the joined table

---
 syncanysql/compiler.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 405f88b..c85f6a3 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -2170,8 +2170,10 @@ class Compiler(object):
                 join_table["calculate_expressions"].append(join_on_expression)
                 return True, condition_column, None
 
+            if condition_column and condition_column["table_name"] != join_table["name"]:
+                condition_column = None
             calculate_fields = []
-            if condition_column and not self.is_subquery(value_expression, config, arguments) and not isinstance(value_expression, list):
+            if not self.is_subquery(value_expression, config, arguments) and not isinstance(value_expression, list):
                 self.parse_calculate(value_expression, config, arguments, primary_table, calculate_fields)
             if not condition_column or calculate_fields:
                 self.parse_calculate(right_expression if value_expression is left_expression else left_expression,
-- 
2.43.0


From 0c18416e0cf57b3dda906595c31cc585fd18dead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:37 +0000
Subject: [PATCH 26/93] fix: BETWEEN on a column of a joined table raised
 IndexError

---
 syncanysql/compiler.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index c85f6a3..f6e59dd 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -1737,9 +1737,9 @@ class Compiler(object):
             return self.compile_calculate(expression.args["this"], config, arguments, primary_table, column_join_tables, join_index)
         elif isinstance(expression, sqlglot_expressions.Between):
             return ["#make", {
-                "key_value": self.compile_calculate(expression.args["this"], config, arguments, primary_table, []),
-                "low_value": self.compile_calculate(expression.args["low"], config, arguments, primary_table, []),
-                "high_value": self.compile_calculate(expression.args["high"], config, arguments, primary_table, [])
+                "key_value": self.compile_calculate(expression.args["this"], config, arguments, primary_table, column_join_tables, join_index),
+                "low_value": self.compile_calculate(expression.args["low"], config, arguments, primary_table, column_join_tables, join_index),
+                "high_value": self.compile_calculate(expression.args["high"], config, arguments, primary_table, column_join_tables, join_index)
             }, [":#if", ["@mysql::gte", "$.key_value", "$.low_value"], ["@mysql::lte", "$.key_value", "$.high_value"], ["#const", 0]]]
         elif self.is_column(expression, config, arguments):
             join_column = self.parse_column(expression, config, arguments)
-- 
2.43.0


From 5eeb2756f4076519720684af77c82adec577c791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:37 +0000
Subject: [PATCH 27/93] fix: IN with a single value evaluated in memory was
 never true

---
 syncanysql/compiler.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index f6e59dd..39334cc 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -1797,11 +1797,12 @@ class Compiler(object):
 
             func_name = expression.key.lower()
             if expression.args.get("expressions"):
+                value_items = ["#make", [self.compile_calculate(item_expression, config, arguments, primary_table, column_join_tables, join_index)
+                                         for item_expression in expression.args["expressions"]]]
                 return [
                     ("@mysql::" + func_name) if is_mysql_func(func_name) else ("@" + func_name),
                     self.compile_calculate(expression.args["this"], config, arguments, primary_table, column_join_tables, join_index),
-                    ["#make", [self.compile_calculate(item_expression, config, arguments, primary_table, column_join_tables, join_index)
-                               for item_expression in expression.args["expressions"]]]
+                    ["@convert_array", value_items] if isinstance(expression, sqlglot_expressions.In) else value_items
                 ]
             if expression.args.get("query"):
                 query_value_calculate = self.compile_calculate(expression.args["query"], config, arguments, primary_table, column_join_tables, join_index)
-- 
2.43.0


From e3e7e26f4bf41ca33600d9422208d3e256100137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:00 +0000
Subject: [PATCH 28/93] fix: DI and UDI writes with @batch lost or replaced
 rows of earlier batches

---
 syncanysql/taskers/query.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/syncanysql/taskers/query.py b/syncanysql/taskers/query.py
index db43ddf..6392343 100644
--- a/syncanysql/taskers/query.py
+++ b/syncanysql/taskers/query.py
@@ -120,8 +120,11 @@ class QueryTasker(object):
             dependency_tasker.start(name, executor, session_config, manager, dependency_arguments)
             dependency_taskers.append(dependency_tasker)
 
-        if aggregate and aggregate.get("window_schema") and not arguments.get("@streaming"):
-            arguments["@batch"] = 0
+        if not arguments.get("@streaming"):
+            if aggregate and aggregate.get("window_schema"):
+                arguments["@batch"] = 0
+            elif self.config["output"].split(" use ")[-1] in ("UDI", "DI"):
+                arguments["@batch"] = 0
         limit, batch = int(arguments.get("@limit", 0)), int(arguments.get("@batch", 0))
         require_reduce = False
         if aggregate and (aggregate.get("schema") or aggregate["window_schema"]):
-- 
2.43.0


From 35113d74eecd16efefe9f5b596e29ba80452826c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:02 +0000
Subject: [PATCH 29/93] fix: lower case write modes were accepted and then
 failed

---
 syncanysql/compiler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 39334cc..19a5ece 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -311,7 +311,7 @@ class Compiler(object):
                 for typing_option in table_info["typing_options"]:
                     if typing_option.upper() not in ("I", "U", "UI", "UDI", "DI"):
                         continue
-                    update_type = typing_option
+                    update_type = typing_option.upper()
                     break
             config["output"] = "".join(["&.", table_info["db"], ".", table_info["name"], "::",
                                         "id", " use ", update_type])
-- 
2.43.0


From d3a5ab6234d3aab402c11ce4bd48754fa7ac0092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:32 +0000
Subject: [PATCH 30/93] fix: UNION kept duplicate rows

---
 syncanysql/compiler.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 19a5ece..ddd5fce 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -347,17 +347,29 @@ class Compiler(object):
             raise SyncanySqlCompileException('unknown insert into, related sql "%s"' % self.to_sql(expression))
 
     def compile_union(self, expression, config, arguments):
-        select_expressions = []
+        select_expressions, distincts = [], []
         def parse(union_expression):
             if isinstance(union_expression.args["this"], sqlglot_expressions.Select):
                 select_expressions.append(union_expression.args["this"])
             else:
                 parse(union_expression.args["this"])
+            distincts.append(bool(union_expression.args.get("distinct")))
             if isinstance(union_expression.args["expression"], sqlglot_expressions.Select):
                 select_expressions.append(union_expression.args["expression"])
             else:
                 parse(union_expression.args["expression"])
         parse(expression)
+        if any(distincts) and not distincts[-1]:
+            # a UNION removes duplicates only from what is on its left, the parts of a later UNION ALL keep theirs
+            index = len(distincts) - distincts[::-1].index(True)
+            distinct_expression = select_expressions[0]
+            for i in range(index):
+                distinct_expression = sqlglot_expressions.Union(this=distinct_expression, distinct=distincts[i],
+                                                                expression=select_expressions[i + 1])
+            select_expressions[:index + 1] = [sqlglot_expressions.Select(
+                expressions=[sqlglot_expressions.Star()], **{"from": sqlglot_expressions.From(expressions=[
+                    sqlglot_expressions.Subquery(this=distinct_expression, alias=sqlglot_expressions.TableAlias(
+                        this=sqlglot_expressions.to_identifier("union_distinct")))])})]
 
         query_name = "__unionquery_" + str(uuid.uuid1().int)
         union_column_names, output_primary_key, output_type = None, None, "I"
@@ -390,6 +402,9 @@ class Compiler(object):
             config["dependencys"].append(subquery_config)
         config["input"] = "&.--." + query_name + "::" + output_primary_key
         config["output"] = config["output"].split("::")[0] + "::" + output_primary_key + " use " + output_type
+        if distincts[-1]:
+            self.compile_distinct_column(expression, config, arguments,
+                                         {"outputer_primary_keys": [output_primary_key]}, {})
         arguments["@primary_order"] = False
         arguments["@limit"] = 0
 
-- 
2.43.0


From c1585a74a62d888ae9385bab8122edfc5c155fb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:52 +0000
Subject: [PATCH 31/93] fix: the write mode of INSERT was ignored when its
 source is a UNION

---
 syncanysql/compiler.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index ddd5fce..c1dcb4b 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -401,6 +401,8 @@ class Compiler(object):
                 output_type = output_primary_key_type_info[1].strip()
             config["dependencys"].append(subquery_config)
         config["input"] = "&.--." + query_name + "::" + output_primary_key
+        if " use " in config["output"]:
+            output_type = config["output"].split(" use ")[-1]
         config["output"] = config["output"].split("::")[0] + "::" + output_primary_key + " use " + output_type
         if distincts[-1]:
             self.compile_distinct_column(expression, config, arguments,
-- 
2.43.0


From 008f2869bab3b3da92577fa87e1041ae33251506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:48 +0000
Subject: [PATCH 32/93] fix: accept negative decimals in SET

---
 syncanysql/taskers/set.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/syncanysql/taskers/set.py b/syncanysql/taskers/set.py
index 8098645..76764a6 100644
--- a/syncanysql/taskers/set.py
+++ b/syncanysql/taskers/set.py
@@ -59,7 +59,7 @@ class SetCommandTasker(object):
         if value.isdigit() or (value[0] == "-" and value[1:].isdigit()):
             return int(value)
         value_info = value.split(".")
-        if len(value_info) == 2 and (value_info[0].isdigit() or (value[0][0] == "-" and value[0][1:].isdigit())) \
+        if len(value_info) == 2 and (value_info[0].isdigit() or (value_info[0][:1] == "-" and value_info[0][1:].isdigit())) \
                 and value_info[1].isdigit():
             return float(value)
         raise ValueError("unknown value: %s" % value)
-- 
2.43.0


From 9fa5c7d902d0e99d8225f579259fa327c735858c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:48 +0000
Subject: [PATCH 33/93] fix: SELECT INTO in a child scope must not hide the
 parent's value before it runs

---
 syncanysql/taskers/into.py | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/syncanysql/taskers/into.py b/syncanysql/taskers/into.py
index 3f5958f..a2d6d2f 100644
--- a/syncanysql/taskers/into.py
+++ b/syncanysql/taskers/into.py
@@ -11,9 +11,10 @@ class IntoTasker(object):
 
     def start(self, name, executor, session_config, manager, arguments):
         for variable in self.config["variables"]:
-            if variable in executor.env_variables:
-                continue
-            executor.env_variables[variable] = None
+            try:
+                executor.env_variables.get_value(variable)
+            except KeyError:
+                executor.env_variables[variable] = None
         self.output_name = "--.__into_" + str(id(self))
         self.tasker.config["output"] = "&." + self.output_name + "::" + self.tasker.config["output"].split("::")[-1]
         self.tasker.config["name"] = self.tasker.config["name"] + "#into"
@@ -53,16 +54,11 @@ class IntoTasker(object):
                     value = [{key: data.get(key) for key in schema_keys} for data in datas]
 
             if len(self.config["variables"]) == 1:
-                if value is None:
-                    if self.config["variables"][0] in executor.env_variables:
-                        executor.env_variables[self.config["variables"][0]] = None
-                else:
-                    executor.env_variables[self.config["variables"][0]] = value
+                executor.env_variables[self.config["variables"][0]] = value
             else:
                 for i in range(len(self.config["variables"])):
                     if i >= len(schema_keys):
-                        if self.config["variables"][i] in executor.env_variables:
-                            executor.env_variables[self.config["variables"][i]] = None
+                        executor.env_variables[self.config["variables"][i]] = None
                         continue
                     if isinstance(value, dict):
                         executor.env_variables[self.config["variables"][i]] = value[schema_keys[i]]
-- 
2.43.0


From 52475c732b0d4cdd48f95fd6f1eefc046f0b930b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:12 +0000
Subject: [PATCH 34/93] fix: quotes in comments no longer swallow the following
 statements

---
 syncanysql/parser.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/syncanysql/parser.py b/syncanysql/parser.py
index f2c38af..ce0109d 100644
--- a/syncanysql/parser.py
+++ b/syncanysql/parser.py
@@ -89,7 +89,7 @@ class SqlParser(object):
                 continue
             if self.sql[self.index] == "#":
                 try:
-                    self.read_util('\n')
+                    self.read_util('\n', ())
                 except EOFError:
                     pass
                 self.next()
@@ -97,13 +97,13 @@ class SqlParser(object):
             segment = self.sql[self.index: self.index + 2]
             if segment == "--":
                 try:
-                    self.read_util('\n')
+                    self.read_util('\n', ())
                 except EOFError:
                     pass
                 self.next()
                 continue
             if segment == "/*":
-                self.read_util("*/")
+                self.read_util("*/", ())
                 self.next()
                 continue
             if self.sql[self.index] == ';':
-- 
2.43.0


From 68c5475f4624538de141ee2776d046eb09b4840a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:14 +0000
Subject: [PATCH 35/93] fix: the prompt runs every statement of an entry, not
 only the first

---
 syncanysql/prompt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/syncanysql/prompt.py b/syncanysql/prompt.py
index 620e01c..e4b9a51 100644
--- a/syncanysql/prompt.py
+++ b/syncanysql/prompt.py
@@ -227,8 +227,8 @@ class CliPrompt(object):
                 if text[0] == "%":
                     self.run_magic_cmd(text[1:])
                     continue
-                self.executor.run("cli", [SqlSegment(text, lineno)])
                 try:
+                    self.executor.run("cli", [SqlSegment(segment.sql, lineno) for segment in SqlParser(text).split()])
                     self.executor.execute()
                 except Exception as e:
                     print(e.__class__.__name__ + ": " + str(e))
-- 
2.43.0


From b29ac5fbf53a9404f84d3f6bbe76e1d5724157cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:14 +0000
Subject: [PATCH 36/93] fix: executing a script file does not need permission
 to write it

---
 syncanysql/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/syncanysql/parser.py b/syncanysql/parser.py
index ce0109d..4f0bce1 100644
--- a/syncanysql/parser.py
+++ b/syncanysql/parser.py
@@ -128,7 +128,7 @@ class FileParser(object):
         self.filename = filename
 
     def load(self):
-        with open(self.filename, "r+", encoding=os.environ.get("SYNCANYENCODING", "utf-8")) as fp:
+        with open(self.filename, "r", encoding=os.environ.get("SYNCANYENCODING", "utf-8")) as fp:
             content = fp.read()
         if isinstance(self.filename, str) and self.filename[-5:].lower() == ".prql":
             try:
-- 
2.43.0


From e2890c7c6dbc386caa11c72915ff4d5fd353b6a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:54 +0000
Subject: [PATCH 37/93] fix: the prompt took a semicolon or quote inside a
 comment for the end of the entry or a string

---
 syncanysql/parser.py | 48 ++++++++++++++++++++++++--------------------
 1 file changed, 26 insertions(+), 22 deletions(-)

diff --git a/syncanysql/parser.py b/syncanysql/parser.py
index 4f0bce1..4d96d87 100644
--- a/syncanysql/parser.py
+++ b/syncanysql/parser.py
@@ -77,34 +77,38 @@ class SqlParser(object):
         raise EOFError()
 
     def read_util_complete(self):
+        start_index = self.index
         while self.index < self.len:
-            return self.read_util(';', ('`', '"', "'"))
+            if self.skip_quoted_or_comment():
+                continue
+            if self.sql[self.index] == ';':
+                return start_index, self.index, self.sql[start_index: self.index]
+            self.next()
+        raise EOFError(self.sql[start_index:])
+
+    def skip_quoted_or_comment(self):
+        if self.sql[self.index] in ('`', '"', "'"):
+            self.skip_escape(self.sql[self.index])
+            return True
+        segment = self.sql[self.index: self.index + 2]
+        if segment[0] == "#" or segment == "--":
+            try:
+                self.read_util('\n', ())
+            except EOFError:
+                pass
+            self.next()
+            return True
+        if segment == "/*":
+            self.read_util("*/", ())
+            self.next()
+            return True
+        return False
 
     def split(self):
         segments = []
         lineno, start_index = 0, None
         while self.index < self.len:
-            if self.sql[self.index] in ('`', '"', "'"):
-                self.skip_escape(self.sql[self.index])
-                continue
-            if self.sql[self.index] == "#":
-                try:
-                    self.read_util('\n', ())
-                except EOFError:
-                    pass
-                self.next()
-                continue
-            segment = self.sql[self.index: self.index + 2]
-            if segment == "--":
-                try:
-                    self.read_util('\n', ())
-                except EOFError:
-                    pass
-                self.next()
-                continue
-            if segment == "/*":
-                self.read_util("*/", ())
-                self.next()
+            if self.skip_quoted_or_comment():
                 continue
             if self.sql[self.index] == ';':
                 if start_index is None:
-- 
2.43.0


From 7e8194707063e50387ae759033d4f3853b705761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:13 +0000
Subject: [PATCH 38/93] fix: use() of a module object broke every following
 statement

---
 syncanysql/config.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/syncanysql/config.py b/syncanysql/config.py
index 8965050..fbd8c04 100644
--- a/syncanysql/config.py
+++ b/syncanysql/config.py
@@ -301,11 +301,15 @@ class SessionConfig(GlobalConfig):
         merged_config = self.merged_config
         if merged_config is None:
             merged = GlobalConfig()
-            merged.merge_config(copy.deepcopy(self.parent_config.get()))
-            merged.merge_config(copy.deepcopy(self.config))
+            merged.merge_config(self.copy_config(self.parent_config.get()))
+            merged.merge_config(self.copy_config(self.config))
             self.merged_config = merged_config = merged.config
         return merged_config
 
+    def copy_config(self, config):
+        # imported modules and objects are shared, they cannot or must not be copied
+        return copy.deepcopy(config, {id(value): value for value in (config.get("imports") or {}).values()})
+
     def set(self, key, value):
         super(SessionConfig, self).set(key, value)
         self.merged_config = None
-- 
2.43.0


From 97a6761063233b8b1ddaad8a95e466b6d9d3c824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:54 +0000
Subject: [PATCH 39/93] fix: contexts that already ran a statement did not see
 later config changes of their parents

---
 syncanysql/config.py | 31 +++++++++++++++----------------
 1 file changed, 15 insertions(+), 16 deletions(-)

diff --git a/syncanysql/config.py b/syncanysql/config.py
index fbd8c04..a033e25 100644
--- a/syncanysql/config.py
+++ b/syncanysql/config.py
@@ -25,6 +25,10 @@ CONST_CONFIG_KEYS = ("@verbose", "@timeout", "@limit", "@batch", "@streaming", "
 class GlobalConfig(object):
     def __init__(self):
         self.config = copy.deepcopy(CoreTasker.DEFAULT_CONFIG)
+        self.version = 0
+
+    def get_version(self):
+        return (self.version,)
 
     def get_home(self):
         if "SYNCANY_HOME" in os.environ:
@@ -295,16 +299,18 @@ class SessionConfig(GlobalConfig):
         self.global_config = global_config
         self.parent_config = parent_config
         self.merged_config = None
-        self.tasker_extend_config = None
+
+    def get_version(self):
+        return self.parent_config.get_version() + (self.version,)
 
     def get(self):
-        merged_config = self.merged_config
-        if merged_config is None:
+        merged_config, version = self.merged_config, self.get_version()
+        if merged_config is None or merged_config[0] != version:
             merged = GlobalConfig()
             merged.merge_config(self.copy_config(self.parent_config.get()))
             merged.merge_config(self.copy_config(self.config))
-            self.merged_config = merged_config = merged.config
-        return merged_config
+            self.merged_config = merged_config = (version, merged.config)
+        return merged_config[1]
 
     def copy_config(self, config):
         # imported modules and objects are shared, they cannot or must not be copied
@@ -312,14 +318,10 @@ class SessionConfig(GlobalConfig):
 
     def set(self, key, value):
         super(SessionConfig, self).set(key, value)
-        self.merged_config = None
-        self.tasker_extend_config = None
+        self.version += 1
 
     def merge(self):
-        self.merged_config = None
-        self.tasker_extend_config = None
-        if isinstance(self.parent_config, SessionConfig):
-            self.parent_config.merge()
+        self.global_config.version += 1
 
     def session(self):
         return SessionConfig(self.global_config, self)
@@ -328,11 +330,8 @@ class SessionConfig(GlobalConfig):
         return copy.deepcopy(CoreTasker.DEFAULT_CONFIG)
 
     def get_tasker_extend_config(self):
-        if self.tasker_extend_config is None:
-            merged_config = self.get()
-            self.tasker_extend_config = {key: merged_config[key] for key in self.TASKER_EXTEND_KEYS
-                                         if key in merged_config}
-        return self.tasker_extend_config
+        merged_config = self.get()
+        return {key: merged_config[key] for key in self.TASKER_EXTEND_KEYS if key in merged_config}
 
     def __bool__(self):
         return bool(self.get())
-- 
2.43.0


From ea17343cee4705719ab68894899891edc8f3f038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:54 +0000
Subject: [PATCH 40/93] fix: SHOW IMPORTS failed after use() of a module object

---
 syncanysql/taskers/show.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/syncanysql/taskers/show.py b/syncanysql/taskers/show.py
index 99bf7ee..b44a83f 100644
--- a/syncanysql/taskers/show.py
+++ b/syncanysql/taskers/show.py
@@ -36,7 +36,7 @@ class ShowCommandTasker(object):
         self.print(fields, datas)
 
     def show_imports(self, session_config):
-        imports = copy.deepcopy(session_config.get().get("imports", {}))
+        imports = session_config.get().get("imports", {})
         fields, datas = ["name", "alias"], []
         for alias, name in imports.items():
             datas.append({
-- 
2.43.0


From f0d6851a1e37559562892890d3a0763bbb684fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:54 +0000
Subject: [PATCH 41/93] fix: statements left over from a failed init file ran
 with the next script

---
 syncanysql/__init__.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/syncanysql/__init__.py b/syncanysql/__init__.py
index 443b546..fe39833 100644
--- a/syncanysql/__init__.py
+++ b/syncanysql/__init__.py
@@ -118,9 +118,13 @@ class ScriptEngine(object):
         if init_execute_files:
             for init_execute_file in init_execute_files:
                 file_parser = FileParser(init_execute_file)
-                self.executor.run("init " + init_execute_file, file_parser.load())
-                with self.executor as executor:
-                    executor.execute()
+                try:
+                    self.executor.run("init " + init_execute_file, file_parser.load())
+                    with self.executor as executor:
+                        executor.execute()
+                except BaseException:
+                    self.executor.runners.clear()
+                    raise
 
     def get_variable(self, name, default=None):
         if self.executor is None:
-- 
2.43.0


From 7f7bd0c56fb3d8e56d942c56cd9def457c9c2caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:16 +0000
Subject: [PATCH 42/93] fix: configured time zone used its historical local
 mean time offset

---
 syncanysql/config.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/syncanysql/config.py b/syncanysql/config.py
index a033e25..1130e2f 100644
--- a/syncanysql/config.py
+++ b/syncanysql/config.py
@@ -9,7 +9,10 @@ import sys
 import uuid
 import logging.config
 import json
-import pytz
+try:
+    from zoneinfo import ZoneInfo
+except ImportError:
+    from pytz import timezone as ZoneInfo
 from syncany.taskers.core import CoreTasker
 from syncany.taskers.config import load_config
 from syncany.logger import get_logger
@@ -158,7 +161,7 @@ class GlobalConfig(object):
 
         if "timezone" in self.config:
             timezone = self.config.get("timezone")
-            set_timezone(pytz.timezone(timezone))
+            set_timezone(ZoneInfo(timezone))
         if "databases" not in self.config:
             self.config["databases"] = []
         databases = {database["name"]: database for database in self.config["databases"]}
-- 
2.43.0


From 099f0364e9caeb0e73c8bb7d67f4ec80d30d99cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:23 +0000
Subject: [PATCH 43/93] fix: date arithmetic gave NULL for months reaching
 December and for Feb 29 plus years, and took microseconds as seconds

---
 .../calculaters/mysql_funcs/datetime_funcs.py   | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/syncanysql/calculaters/mysql_funcs/datetime_funcs.py b/syncanysql/calculaters/mysql_funcs/datetime_funcs.py
index 9ccb068..c233555 100644
--- a/syncanysql/calculaters/mysql_funcs/datetime_funcs.py
+++ b/syncanysql/calculaters/mysql_funcs/datetime_funcs.py
@@ -17,16 +17,10 @@ TIME_INTERVAL_RE = re.compile(r'^(\d{4}?\-)?(\d+?\-)?(\d+?\s)?(\d+?:)?(\d+?)?(:\
 
 def calculate_datetime(dt, interval, is_sub=False):
     def calculate(unit, value):
-        if unit == "YEAR":
-            return dt.replace(year=dt.year - value) if is_sub else dt.replace(year=dt.year + value)
-        if unit in ("QUARTER", "MONTH"):
-            months = value * 3 if unit == "QUARTER" else value
-            if is_sub:
-                new_year = dt.year - int(months / 12) - (1 if dt.month - months % 12 < 1 else 0)
-                new_month = (dt.month - months % 12) + (12 if dt.month - months % 12 < 1 else 0)
-            else:
-                new_year = dt.year + int(months / 12) + (1 if dt.month + months % 12 > 12 else 0)
-                new_month = (dt.month + months % 12) % 12
+        if unit in ("YEAR", "QUARTER", "MONTH"):
+            months = value * {"YEAR": 12, "QUARTER": 3, "MONTH": 1}[unit]
+            new_year, new_month = divmod(dt.year * 12 + dt.month - 1 + (-months if is_sub else months), 12)
+            new_month += 1
             try:
                 return dt.replace(year=new_year, month=new_month)
             except ValueError:
@@ -38,7 +32,8 @@ def calculate_datetime(dt, interval, is_sub=False):
                         day -= 1
                 return None
         if unit in TIMEDELTA_UNITS:
-            td = datetime.timedelta(seconds=TIMEDELTA_UNITS[unit] * value)
+            td = datetime.timedelta(microseconds=value) if unit == "MICROSECOND" \
+                else datetime.timedelta(seconds=TIMEDELTA_UNITS[unit] * value)
             return (dt - td) if is_sub else (dt + td)
         return None
     
-- 
2.43.0


From f21361bcdd404473ba269aca6b46c869e61c9d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:23 +0000
Subject: [PATCH 44/93] fix: CURDATE ignored the configured time zone

---
 syncanysql/calculaters/mysql_funcs/datetime_funcs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/syncanysql/calculaters/mysql_funcs/datetime_funcs.py b/syncanysql/calculaters/mysql_funcs/datetime_funcs.py
index c233555..7e7fbac 100644
--- a/syncanysql/calculaters/mysql_funcs/datetime_funcs.py
+++ b/syncanysql/calculaters/mysql_funcs/datetime_funcs.py
@@ -63,11 +63,11 @@ def mysql_currenttimestamp():
 
 @typing_filter(datetime.date)
 def mysql_curdate():
-    return datetime.date.today()
+    return datetime.datetime.now(tz=get_timezone()).date()
 
 @typing_filter(datetime.date)
 def mysql_currentdate():
-    return datetime.date.today()
+    return datetime.datetime.now(tz=get_timezone()).date()
 
 @typing_filter(datetime.time)
 def mysql_curtime():
-- 
2.43.0


From a82710506133772ad68cd28e9c9028b9f36e0486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:23 +0000
Subject: [PATCH 45/93] fix: UNIX_TIMESTAMP(x) was off by the system time zone
 and failed for NULL, strings and dates

---
 .../calculaters/mysql_funcs/datetime_funcs.py       | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/syncanysql/calculaters/mysql_funcs/datetime_funcs.py b/syncanysql/calculaters/mysql_funcs/datetime_funcs.py
index 7e7fbac..41eb6f7 100644
--- a/syncanysql/calculaters/mysql_funcs/datetime_funcs.py
+++ b/syncanysql/calculaters/mysql_funcs/datetime_funcs.py
@@ -126,10 +126,17 @@ def mysql_time(dt):
     return None
 
 @typing_filter(int)
-def mysql_unix_timestamp(dt=None):
-    if dt is None:
+def mysql_unix_timestamp(*args):
+    if not args:
         return int(time.time())
-    return int(time.mktime(dt.utctimetuple()))
+    dt = args[0]
+    if dt is None:
+        return None
+    if isinstance(dt, NumberStringTypes):
+        dt = parse_datetime(str(dt), None, get_timezone())
+    elif isinstance(dt, datetime.date) and not isinstance(dt, datetime.datetime):
+        dt = datetime.datetime(dt.year, dt.month, dt.day, tzinfo=get_timezone())
+    return int(dt.timestamp())
 
 @typing_filter(datetime.datetime)
 def mysql_from_unixtime(t):
-- 
2.43.0


From 585f3a6d9b2dfb018f6b6fecd0fcd95a8f475b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:31 +0000
Subject: [PATCH 46/93] fix: LIMIT of a SELECT that expands rows limited the
 rows read instead of the rows given

---
 syncanysql/compiler.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index c1dcb4b..4bf4dbd 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -565,7 +565,8 @@ class Compiler(object):
         if limit_value != 0 or offset_value > 0:
             if config["predicate"] or config["intercept"] or (config.get("aggregate") and
                                                               (config["aggregate"]["schema"] or config["aggregate"]["window_schema"])) \
-                    or config["pipelines"] or limit_value <= 0 or group_expression or expression.args.get("distinct"):
+                    or config["pipelines"] or limit_value <= 0 or group_expression or expression.args.get("distinct") \
+                    or self.is_yield_column(config["schema"]):
                 if limit_value != 0:
                     config["pipelines"].append([">>@array::slice", "$.*|array", offset_value,
                                                 (offset_value + limit_value) if limit_value > 0 else limit_value])
@@ -2948,6 +2949,13 @@ class Compiler(object):
             return True
         return False
 
+    def is_yield_column(self, column):
+        if isinstance(column, dict):
+            return any(self.is_yield_column(child_column) for child_column in column.values())
+        if isinstance(column, list):
+            return bool(column) and (column[0] == "#yield" or any(self.is_yield_column(child_column) for child_column in column))
+        return False
+
     def is_window_aggregate(self, expression, config, arguments):
         return isinstance(expression, sqlglot_expressions.Window)
 
-- 
2.43.0


From ecf2f5eac5c56a840ca1e3d4caf26e15a6f62e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:38 +0000
Subject: [PATCH 47/93] fix: UNION paired the columns of parts with different
 names alphabetically and gave extra columns

---
 syncanysql/compiler.py | 32 ++++++++++++++++++++++----------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 4bf4dbd..bddb0cb 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -376,7 +376,16 @@ class Compiler(object):
         for select_expression in select_expressions:
             subquery_name = "__unionquery_" + str(uuid.uuid1().int)
             subquery_arguments = {key: arguments[key] for key in CONST_CONFIG_KEYS if key in arguments}
-            subquery_config = self.compile_query(select_expression, subquery_arguments)
+            subquery_config = self.compile_query(select_expression.copy(), subquery_arguments)
+            if isinstance(subquery_config["schema"], dict):
+                subquery_column_names = list(subquery_config["schema"].keys())
+                if union_column_names is None:
+                    union_column_names = subquery_column_names
+                elif set(subquery_column_names) != set(union_column_names) and len(subquery_column_names) == len(union_column_names):
+                    # the first part names the columns of all parts, by their position
+                    subquery_arguments = {key: arguments[key] for key in CONST_CONFIG_KEYS if key in arguments}
+                    subquery_config = self.compile_query(self.rename_union_columns(select_expression, subquery_column_names, union_column_names),
+                                                         subquery_arguments)
             output_primary_key_type_info = subquery_config["output"].split("::")[-1].split(" use ")
             subquery_config["output"] = "&.--." + query_name + "::" + output_primary_key_type_info[0] + " use I"
             subquery_config["name"] = subquery_config["name"] + "#" + subquery_name[2:]
@@ -386,15 +395,6 @@ class Compiler(object):
                     config["schema"] = {}
                 for name in subquery_config["schema"]:
                     config["schema"][name] = "$." + name
-            if isinstance(subquery_config["schema"], dict):
-                if union_column_names is None:
-                    union_column_names = sorted(list(subquery_config["schema"].keys()))
-                else:
-                    subquery_column_names = sorted(list(subquery_config["schema"].keys()))
-                    for i in range(min(len(union_column_names), len(subquery_column_names))):
-                        if union_column_names[i] == subquery_column_names[i]:
-                            continue
-                        subquery_config["schema"][union_column_names[i]] = subquery_config["schema"][subquery_column_names[i]]
             if output_primary_key is None:
                 output_primary_key = output_primary_key_type_info[0]
             if output_type == "I" and len(output_primary_key_type_info) >= 2:
@@ -410,6 +410,18 @@ class Compiler(object):
         arguments["@primary_order"] = False
         arguments["@limit"] = 0
 
+    def rename_union_columns(self, expression, column_names, union_column_names):
+        select_expressions = expression.args.get("expressions") or []
+        if len(select_expressions) != len(column_names) or any(expression.args.get(key) for key in ("group", "having", "order")):
+            select_expressions = [sqlglot_expressions.column(column_name, table="union_part", quoted=True) for column_name in column_names]
+            expression = sqlglot_expressions.Select(**{"from": sqlglot_expressions.From(expressions=[sqlglot_expressions.Subquery(
+                this=expression, alias=sqlglot_expressions.TableAlias(this=sqlglot_expressions.to_identifier("union_part")))])})
+        return expression.select(*[
+            sqlglot_expressions.Alias(this=(select_expression.args["this"] if isinstance(select_expression, sqlglot_expressions.Alias)
+                                            else select_expression).copy(),
+                                      alias=sqlglot_expressions.to_identifier(union_column_names[i], quoted=True))
+            for i, select_expression in enumerate(select_expressions)], append=False)
+
     def compile_select(self, expression, config, arguments):
         primary_table = {"db": None, "name": None, "table_name": None, "table_alias": None, "seted_primary_keys": False,
                          "loader_primary_keys": [], "outputer_primary_keys": [], "columns": {}, "subquery": None, "select_columns": {}}
-- 
2.43.0


From edd0369d07ac91803aa9360c958be0734a54e1d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:23 +0000
Subject: [PATCH 48/93] fix: doubled backslashes before a, b, f, n, r, t, v and
 0 in strings were garbled

---
 syncanysql/compiler.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index bddb0cb..316a759 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -97,7 +97,6 @@ class CompilerDialect(sqlglot_dialects.Dialect):
 
 
 class Compiler(object):
-    ESCAPE_CHARS = ['\\\\a', '\\\\b', '\\\\f', '\\\\n', '\\\\r', '\\\\t', '\\\\v', '\\\\0']
     TYPE_FILTERS = {"int": "int", "float": "float", "str": "str", "string": "str", "bytes": "bytes", 'bool': 'bool', 'array': 'array', 'set': 'set',
                    'map': 'map', "objectid": "objectid", "uuid": "uuid", "datetime": "datetime", "date": "date", "time": "time",
                    "char": "str", "varchar": "str", "nchar": "str", "text": "str", "mediumtext": "str", "tinytext": "str",
@@ -112,12 +111,8 @@ class Compiler(object):
         self.with_tables = {}
 
     def compile(self, sql, arguments):
-        escape_sql = sql
-        if sql[:4].lower() not in ("set ", "use ") and "\\\\" in sql:
-            for escape_char in self.ESCAPE_CHARS:
-                escape_sql = escape_sql.replace(escape_char, "\\\\\\" + escape_char)
         try:
-            expression = maybe_parse(self.parse_mapping(escape_sql), dialect=CompilerDialect)
+            expression = maybe_parse(self.parse_mapping(sql), dialect=CompilerDialect)
             return self.compile_expression(expression, arguments)
         except ParseError as e:
             if not e.errors:
-- 
2.43.0


From 320797ef7750df57669089daa24429aad0ccca95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:26 +0000
Subject: [PATCH 49/93] fix: the minus before a variable or hex constant was
 lost and bit constants were NULL

---
 syncanysql/compiler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 316a759..9966dc2 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -2770,7 +2770,7 @@ class Compiler(object):
         elif isinstance(expression, sqlglot_expressions.Boolean):
             value = expression.args["this"]
             typing_filter = "bool"
-        elif isinstance(expression, (sqlglot_expressions.HexString, sqlglot_expressions.HexString)):
+        elif isinstance(expression, (sqlglot_expressions.HexString, sqlglot_expressions.BitString)):
             value, typing_filter = int(expression.args["this"]), "int"
         elif isinstance(expression, sqlglot_expressions.Parameter):
             name = expression.args["this"].args["this"]
@@ -2919,7 +2919,7 @@ class Compiler(object):
 
     def is_const(self, expression, config, arguments):
         if isinstance(expression, sqlglot_expressions.Neg):
-            return not isinstance(expression.args["this"], sqlglot_expressions.Neg) and self.is_const(expression.args["this"], config, arguments)
+            return isinstance(expression.args["this"], sqlglot_expressions.Literal) and expression.args["this"].is_number
         if isinstance(expression, sqlglot_expressions.Parameter):
             return not isinstance(expression, AssignParameter)
         return isinstance(expression, (sqlglot_expressions.Literal, sqlglot_expressions.Boolean,
-- 
2.43.0


From 6771d17411928673476235b45f752e4aded7b3b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:43 +0000
Subject: [PATCH 50/93] fix: IN lists with variables used their values from
 when the statement was compiled

---
 syncanysql/compiler.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 9966dc2..8fac3a1 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -903,7 +903,7 @@ class Compiler(object):
                 return None, None
 
             if isinstance(right_expression, list):
-                if all([self.is_const(value_expression_item, config, arguments) for value_expression_item in right_expression]):
+                if all([self.is_literal(value_expression_item, config, arguments) for value_expression_item in right_expression]):
                     value_items = [self.parse_const(value_expression_item, config, arguments)["value"]
                                    for value_expression_item in right_expression]
                     return left_column, ["#const", value_items]
@@ -1773,7 +1773,7 @@ class Compiler(object):
         elif isinstance(expression, sqlglot_expressions.Star):
             return "$.*"
         elif isinstance(expression, sqlglot_expressions.Tuple):
-            if all([self.is_const(tuple_expression, config, arguments) for tuple_expression in expression.args["expressions"]]):
+            if all([self.is_literal(tuple_expression, config, arguments) for tuple_expression in expression.args["expressions"]]):
                 value_columns = [self.parse_const(tuple_expression, config, arguments)["value"]
                                  for tuple_expression in expression.args["expressions"]]
                 return ["#const", value_columns]
@@ -1901,7 +1901,7 @@ class Compiler(object):
                 return left_calculater, None
 
             if isinstance(right_expression, list):
-                if all([self.is_const(value_expression_item, config, arguments) for value_expression_item in right_expression]):
+                if all([self.is_literal(value_expression_item, config, arguments) for value_expression_item in right_expression]):
                     value_items = [self.parse_const(value_expression_item, config, arguments)["value"]
                                    for value_expression_item in right_expression]
                     return left_calculater, ["#const", value_items]
@@ -2221,7 +2221,7 @@ class Compiler(object):
                     value_column = ["@convert_array", value_column, ":$.:0"]
                 return False, condition_column, value_column
             if isinstance(value_expression, list):
-                if all([self.is_const(value_expression_item, config, arguments) for value_expression_item in value_expression]):
+                if all([self.is_literal(value_expression_item, config, arguments) for value_expression_item in value_expression]):
                     value_items = [self.parse_const(value_expression_item, config, arguments)["value"]
                                    for value_expression_item in value_expression]
                     return False, condition_column, ["#const", value_items]
@@ -2926,6 +2926,9 @@ class Compiler(object):
                                        sqlglot_expressions.Null, sqlglot_expressions.HexString, sqlglot_expressions.BitString,
                                        sqlglot_expressions.ByteString))
 
+    def is_literal(self, expression, config, arguments):
+        return not isinstance(expression, sqlglot_expressions.Parameter) and self.is_const(expression, config, arguments)
+
     def is_calculate(self, expression, config, arguments):
         if isinstance(expression, sqlglot_expressions.Condition):
             return isinstance(expression, (sqlglot_expressions.EQ, sqlglot_expressions.NEQ, sqlglot_expressions.GT, sqlglot_expressions.GTE,
-- 
2.43.0


From b2ed4eb124afa4a3e6f9b267eba9cd0fe74ddc89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:45 +0000
Subject: [PATCH 51/93] fix: CASE x WHEN with negative, fractional, repeated or
 NULL values chose the wrong branch

---
 syncanysql/compiler.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 8fac3a1..57889fb 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -1706,23 +1706,23 @@ class Compiler(object):
                 value_column = self.compile_calculate(expression.args["expression"], config, arguments, primary_table, column_join_tables, join_index)
             return ["#if", ["@is_null", condition_column], value_column, condition_column]
         elif isinstance(expression, sqlglot_expressions.Case):
-            if expression.args.get("this") and all([self.is_const(case_expression.args["this"], config, arguments)
+            if expression.args.get("this") and all([self.is_literal(case_expression.args["this"], config, arguments)
                                                     for case_expression in expression.args.get("ifs", [])]):
-                cases = {}
-                cases["#case"] = self.compile_calculate(expression.args["this"], config, arguments, primary_table, column_join_tables, join_index)
-                if expression.args.get("ifs"):
-                    for case_expression in expression.args["ifs"]:
-                        case_value = self.parse_const(case_expression.args["this"], config, arguments)["value"]
-                        cases[(":" + str(case_value)) if isinstance(case_value, NumberTypes) and not isinstance(case_value, bool) else case_value] = \
-                            self.compile_calculate(case_expression.args["true"], config, arguments, primary_table, column_join_tables, join_index)
-                cases["#end"] = self.compile_calculate(expression.args["default"], config, arguments, primary_table, column_join_tables, join_index) \
-                    if expression.args.get("default") else None
-                return cases
+                case_values = [self.parse_const(case_expression.args["this"], config, arguments)["value"]
+                               for case_expression in expression.args.get("ifs", [])]
+                if None not in case_values and len(set(case_values)) == len(case_values) \
+                        and not any([isinstance(case_value, str) and case_value[:1] in (":", "#") for case_value in case_values]):
+                    cases = {"#case": self.compile_calculate(expression.args["this"], config, arguments, primary_table, column_join_tables, join_index)}
+                    for case_value, case_expression in zip(case_values, expression.args.get("ifs", [])):
+                        cases[case_value] = self.compile_calculate(case_expression.args["true"], config, arguments, primary_table, column_join_tables, join_index)
+                    cases["#end"] = self.compile_calculate(expression.args["default"], config, arguments, primary_table, column_join_tables, join_index) \
+                        if expression.args.get("default") else None
+                    return cases
 
             value_column = self.compile_calculate(expression.args["this"], config, arguments, primary_table, column_join_tables, join_index) \
                 if expression.args.get("this") else None
             defaul_column = self.compile_calculate(expression.args["default"], config, arguments, primary_table, column_join_tables, join_index) \
-                if expression.args.get("default") else ["#const", 0]
+                if expression.args.get("default") else ["#const", None if expression.args.get("this") else 0]
             if not expression.args.get("ifs"):
                 return defaul_column
             def build_if(if_expression, case_expressions):
-- 
2.43.0


From 3e4bd3e33fa96a13de6f5d204a070905555a8cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:48 +0000
Subject: [PATCH 52/93] fix: the column list of INSERT INTO ... SELECT was
 ignored

---
 syncanysql/compiler.py | 48 ++++++++++++++++++++++++++++++++++--------
 1 file changed, 39 insertions(+), 9 deletions(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 57889fb..d4c8f29 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -315,6 +315,8 @@ class Compiler(object):
             select_expression = expression.args["expression"]
             if select_expression.args.get("with"):
                 self.compile_with(select_expression.args.get("with"), config, arguments)
+            if columns:
+                select_expression = self.compile_insert_columns(select_expression, columns, arguments)
             if isinstance(select_expression, sqlglot_expressions.Union):
                 self.compile_union(select_expression, config, arguments)
             else:
@@ -379,7 +381,7 @@ class Compiler(object):
                 elif set(subquery_column_names) != set(union_column_names) and len(subquery_column_names) == len(union_column_names):
                     # the first part names the columns of all parts, by their position
                     subquery_arguments = {key: arguments[key] for key in CONST_CONFIG_KEYS if key in arguments}
-                    subquery_config = self.compile_query(self.rename_union_columns(select_expression, subquery_column_names, union_column_names),
+                    subquery_config = self.compile_query(self.rename_select_columns(select_expression, subquery_column_names, union_column_names),
                                                          subquery_arguments)
             output_primary_key_type_info = subquery_config["output"].split("::")[-1].split(" use ")
             subquery_config["output"] = "&.--." + query_name + "::" + output_primary_key_type_info[0] + " use I"
@@ -405,17 +407,45 @@ class Compiler(object):
         arguments["@primary_order"] = False
         arguments["@limit"] = 0
 
-    def rename_union_columns(self, expression, column_names, union_column_names):
+    def rename_select_columns(self, expression, column_names, new_names, convert_types=None):
         select_expressions = expression.args.get("expressions") or []
         if len(select_expressions) != len(column_names) or any(expression.args.get(key) for key in ("group", "having", "order")):
-            select_expressions = [sqlglot_expressions.column(column_name, table="union_part", quoted=True) for column_name in column_names]
+            select_expressions = [sqlglot_expressions.column(column_name, table="rename_part", quoted=True) for column_name in column_names]
             expression = sqlglot_expressions.Select(**{"from": sqlglot_expressions.From(expressions=[sqlglot_expressions.Subquery(
-                this=expression, alias=sqlglot_expressions.TableAlias(this=sqlglot_expressions.to_identifier("union_part")))])})
-        return expression.select(*[
-            sqlglot_expressions.Alias(this=(select_expression.args["this"] if isinstance(select_expression, sqlglot_expressions.Alias)
-                                            else select_expression).copy(),
-                                      alias=sqlglot_expressions.to_identifier(union_column_names[i], quoted=True))
-            for i, select_expression in enumerate(select_expressions)], append=False)
+                this=expression, alias=sqlglot_expressions.TableAlias(this=sqlglot_expressions.to_identifier("rename_part")))])})
+        rename_expressions = []
+        for i, select_expression in enumerate(select_expressions):
+            if isinstance(select_expression, sqlglot_expressions.Alias):
+                select_expression = select_expression.args["this"]
+            select_expression = select_expression.copy()
+            if convert_types and convert_types[i]:
+                select_expression = sqlglot_expressions.Anonymous(this="convert_" + convert_types[i], expressions=[select_expression])
+            rename_expressions.append(sqlglot_expressions.Alias(this=select_expression,
+                                                                alias=sqlglot_expressions.to_identifier(new_names[i], quoted=True)))
+        return expression.select(*rename_expressions, append=False)
+
+    def compile_insert_columns(self, expression, columns, arguments):
+        # the columns of insert into name the selected values by their position
+        union_expressions, select_expression = [], expression.copy()
+        expression = select_expression
+        while isinstance(select_expression, (sqlglot_expressions.Union, sqlglot_expressions.Subquery)):
+            union_expressions.append(select_expression)
+            select_expression = select_expression.args["this"]
+        select_arguments = {key: arguments[key] for key in CONST_CONFIG_KEYS if key in arguments}
+        schema = self.compile_query(select_expression.copy(), select_arguments)["schema"]
+        if not isinstance(schema, dict):
+            return expression
+        if len(schema) != len(columns):
+            raise SyncanySqlCompileException('error insert into values, the number of values is not that of columns, related sql "%s"'
+                                             % self.to_sql(expression))
+        column_names, new_names, types = list(schema.keys()), [column[0] for column in columns], [column[1] for column in columns]
+        if column_names == new_names and not any(types):
+            return expression
+        select_expression = self.rename_select_columns(select_expression, column_names, new_names, types)
+        if not union_expressions:
+            return select_expression
+        union_expressions[-1].set("this", select_expression)
+        return expression
 
     def compile_select(self, expression, config, arguments):
         primary_table = {"db": None, "name": None, "table_name": None, "table_alias": None, "seted_primary_keys": False,
-- 
2.43.0


From 438335028e585486148fc44145458b46bf0ab666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:50 +0000
Subject: [PATCH 53/93] fix: INSERT ... VALUES changed values to the type of
 other rows, turned NULL into 0 and expressions into NULL

---
 syncanysql/compiler.py | 35 ++++++++++++++++++++++++++---------
 1 file changed, 26 insertions(+), 9 deletions(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index d4c8f29..a282796 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -325,19 +325,36 @@ class Compiler(object):
             values_expression = expression.args["expression"]
             if not values_expression.args.get("expressions"):
                 raise SyncanySqlCompileException('unknown insert into, related sql "%s"' % self.to_sql(expression))
-            datas = []
+            if not columns:
+                raise SyncanySqlCompileException('unknown insert into columns, related sql "%s"' % self.to_sql(expression))
+            datas, is_literal = [], True
             for data_expression in values_expression.args["expressions"]:
-                data = {}
-                for i in range(len(data_expression.args["expressions"])):
-                    value_expression = data_expression.args["expressions"][i]
-                    value = self.parse_const(value_expression, config, arguments)["value"]
-                    if columns[i][1] is None:
-                        columns[i][1] = str(type(value).__name__) if isinstance(value, (int, float, bool)) else None
-                    data[columns[i][0]] = value
-                datas.append(data)
+                value_expressions = data_expression.args["expressions"]
+                if len(value_expressions) != len(columns):
+                    raise SyncanySqlCompileException('error insert into values, the number of values is not that of columns, related sql "%s"'
+                                                     % self.to_sql(expression))
+                if not all([self.is_literal(value_expression, config, arguments) for value_expression in value_expressions]):
+                    is_literal = False
+                datas.append(value_expressions)
+            if not is_literal:
+                select_expression = None
+                for value_expressions in datas:
+                    row_expression = self.rename_select_columns(sqlglot_expressions.Select(expressions=value_expressions), columns,
+                                                                [column[0] for column in columns], [column[1] for column in columns])
+                    select_expression = row_expression if select_expression is None else sqlglot_expressions.Union(
+                        this=select_expression, expression=row_expression, distinct=False)
+                if isinstance(select_expression, sqlglot_expressions.Union):
+                    self.compile_union(select_expression, config, arguments)
+                else:
+                    self.compile_select(self.optimize_rewrite(select_expression, config, arguments), config, arguments)
+                return
+            output_primary_key = "id" if "id" in [column[0] for column in columns] else columns[0][0]
+            config["output"] = config["output"].replace("::id use ", "::" + output_primary_key + " use ")
             config["schema"] = {column_name: "$." + column_name + (("|" + column_type) if column_type else "")
                                 for column_name, column_type in columns}
             config["input"] = "&.--.--::" + columns[0][0]
+            datas = [{columns[i][0]: self.parse_const(value_expression, config, arguments)["value"]
+                      for i, value_expression in enumerate(value_expressions)} for value_expressions in datas]
             config["loader"] = "const_loader"
             config["loader_arguments"] = {"datas": datas}
         else:
-- 
2.43.0


From 5ef8059c5ba8a1ce58e83409ec9c3d9604f05a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:34 +0000
Subject: [PATCH 54/93] fix: a condition with the value on the left side, such
 as 2 > a, was pushed to the storage the wrong way round

---
 syncanysql/compiler.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index a282796..5ef1683 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -987,6 +987,16 @@ class Compiler(object):
             condition_querys.append({condition_exp: condition_calculater})
             return None
 
+        reverse_expressions = {sqlglot_expressions.GT: sqlglot_expressions.LT, sqlglot_expressions.GTE: sqlglot_expressions.LTE,
+                               sqlglot_expressions.LT: sqlglot_expressions.GT, sqlglot_expressions.LTE: sqlglot_expressions.GTE}
+        if expression.__class__ in reverse_expressions and not self.is_column(expression.args["this"], config, arguments) \
+                and self.is_column(expression.args["expression"], config, arguments):
+            reverse_expression = reverse_expressions[expression.__class__](this=expression.args["expression"].copy(),
+                                                                           expression=expression.args["this"].copy())
+            if self.compile_where_condition(reverse_expression, config, arguments, primary_table, join_tables) is not None:
+                return expression
+            setattr(expression, "syncany_valuer", ["#const", 1])
+            return None
         if isinstance(expression, sqlglot_expressions.EQ):
             condition_column, right_calculater = parse_condition(expression)
             if condition_column is None or right_calculater is None:
-- 
2.43.0


From a808286ced2860e2481cf66ec5d6c5a7917852f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:34 +0000
Subject: [PATCH 55/93] fix: LIKE ignored _ and matched prefixes only, and
 HAVING took its pattern for a regular expression

---
 syncanysql/calculaters/mysql_funcs/regexp_funcs.py | 4 ++--
 syncanysql/compiler.py                             | 6 +-----
 2 files changed, 3 insertions(+), 7 deletions(-)

diff --git a/syncanysql/calculaters/mysql_funcs/regexp_funcs.py b/syncanysql/calculaters/mysql_funcs/regexp_funcs.py
index 709833a..491e9c6 100644
--- a/syncanysql/calculaters/mysql_funcs/regexp_funcs.py
+++ b/syncanysql/calculaters/mysql_funcs/regexp_funcs.py
@@ -111,9 +111,9 @@ def mysql_regexp_substr(s, r, pos=1, occurrence=1, match_type=None):
 def mysql_like(s, r, match_type=None):
     if r is None or s is None:
         return None
-    r = ".*" if r == '%%' else "".join([rg.replace("%", ".*") for rg in re.escape(r).split("%%")])
     try:
-        return 1 if re.match(r, s, parse_flags(match_type)) else 0
+        r = "".join([".*" if rg == "%" else ("." if rg == "_" else re.escape(rg[-1])) for rg in re.findall(r"\\.|.", r, re.DOTALL)])
+        return 1 if re.fullmatch(r, s, parse_flags(match_type) | re.DOTALL) else 0
     except:
         return 0
 
diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 5ef1683..b867f14 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -2013,11 +2013,7 @@ class Compiler(object):
             return ["@mysql::in", left_calculater, ["@convert_array", right_calculater]]
         elif isinstance(expression, sqlglot_expressions.Like):
             left_calculater, right_calculater = parse(expression)
-            if not isinstance(right_calculater, list) or len(right_calculater) != 2 or right_calculater[0] != "#const":
-                raise SyncanySqlCompileException('error having condition, like condition value must be const, related sql "%s"'
-                                                 % self.to_sql(expression))
-            return ["#if", ["@re::match", ".*" if right_calculater[1] == "%%" else right_calculater[1].replace("%", ".*")
-                .replace(".*.*", "%"), left_calculater], ["#const", 1], ["#const", 0]]
+            return ["@mysql::like", left_calculater, right_calculater]
         elif isinstance(expression, sqlglot_expressions.Paren):
             return self.compile_having_condition(expression.args.get("this"), config, arguments, primary_table)
         else:
-- 
2.43.0


From 63b71a1fc25d23bedb2f0640d96e661dc42d4c57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:34 +0000
Subject: [PATCH 56/93] fix: NOT BETWEEN was true for NULL

---
 syncanysql/compiler.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index b867f14..fea4fd3 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -1822,7 +1822,9 @@ class Compiler(object):
                 "key_value": self.compile_calculate(expression.args["this"], config, arguments, primary_table, column_join_tables, join_index),
                 "low_value": self.compile_calculate(expression.args["low"], config, arguments, primary_table, column_join_tables, join_index),
                 "high_value": self.compile_calculate(expression.args["high"], config, arguments, primary_table, column_join_tables, join_index)
-            }, [":#if", ["@mysql::gte", "$.key_value", "$.low_value"], ["@mysql::lte", "$.key_value", "$.high_value"], ["#const", 0]]]
+            }, [":#if", ["@mysql::gte", "$.key_value", "$.low_value"], ["@mysql::lte", "$.key_value", "$.high_value"],
+                ["#if", ["@is_null", ["@mysql::gte", "$.key_value", "$.low_value"]],
+                 ["#if", ["@mysql::gt", "$.key_value", "$.high_value"], ["#const", 0], ["#const", None]], ["#const", 0]]]]
         elif self.is_column(expression, config, arguments):
             join_column = self.parse_column(expression, config, arguments)
             return self.compile_join_column_field(expression, config, arguments, primary_table, join_index, 
-- 
2.43.0


From 972218146c85515ebec1ae881e3ed285064982d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:34 +0000
Subject: [PATCH 57/93] fix: an equation of two columns of the joined table in
 ON never ended

---
 syncanysql/compiler.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index fea4fd3..039275a 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -2211,7 +2211,15 @@ class Compiler(object):
                 right_column = self.parse_column(right_expression, config, arguments)
 
             condition_column, value_column, join_on_expression, value_expression = left_column, None, None, right_expression
-            if isinstance(expression, sqlglot_expressions.EQ):
+            def is_join_table_expression(value_expression):
+                if self.is_const(value_expression, config, arguments) or self.is_subquery(value_expression, config, arguments):
+                    return False
+                calculate_fields = []
+                self.parse_calculate(value_expression, config, arguments, primary_table, calculate_fields)
+                return any([calculate_field["table_name"] == join_table["name"] for calculate_field in calculate_fields])
+
+            if isinstance(expression, sqlglot_expressions.EQ) and not (is_join_table_expression(left_expression)
+                                                                       and is_join_table_expression(right_expression)):
                 if left_column and left_column["table_name"] == join_table["name"] and not left_column["convert_typing_filter"]:
                     condition_column, value_column, value_expression = left_column, right_column, right_expression
                     if not value_column and not self.is_const(right_expression, config, arguments) and not isinstance(right_expression, list) \
@@ -3306,6 +3314,9 @@ class Compiler(object):
             if not calculate_fields:
                 const_expressions.append(condition_expression)
                 return
+            if any([calculate_field["table_name"] == table_name for calculate_field in calculate_fields]):
+                calculate_expressions.append(condition_expression)
+                return
             on_expressions.append(condition_expression)
             for calculate_field in calculate_fields:
                 related_tables.add(calculate_field["table_name"])
-- 
2.43.0


From ed223728d975c3531481dd10f9dc78fd6936c283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:49 +0000
Subject: [PATCH 58/93] fix: a second condition with the same column and
 operator was ignored, and == with IN on one column took either

---
 syncanysql/compiler.py | 74 ++++++++++++++----------------------------
 1 file changed, 24 insertions(+), 50 deletions(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 039275a..e5cb99c 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -971,20 +971,11 @@ class Compiler(object):
             return None, None
 
         def build_query_condition(condition_column, condition_exp, condition_calculater):
-            if condition_column["typing_name"] not in config["querys"]:
-                config["querys"][condition_column["typing_name"]] = {}
-            condition_querys = config["querys"][condition_column["typing_name"]]
-            if isinstance(condition_querys, dict):
-                if condition_exp not in condition_querys:
-                    condition_querys[condition_exp] = condition_calculater
-                    return None
-                condition_querys = [condition_querys]
-                config["querys"][condition_column["typing_name"]] = condition_querys
-            for condition_query in condition_querys:
-                if condition_exp not in condition_query:
-                    condition_query[condition_exp] = condition_calculater
-                    return None
-            condition_querys.append({condition_exp: condition_calculater})
+            condition_querys = config["querys"].setdefault(condition_column["typing_name"], {})
+            if not self.can_add_query_condition(condition_querys, condition_exp):
+                return expression
+            condition_querys[condition_exp] = condition_calculater
+            setattr(expression, "syncany_valuer", ["#const", 1])
             return None
 
         reverse_expressions = {sqlglot_expressions.GT: sqlglot_expressions.LT, sqlglot_expressions.GTE: sqlglot_expressions.LTE,
@@ -1001,56 +992,48 @@ class Compiler(object):
             condition_column, right_calculater = parse_condition(expression)
             if condition_column is None or right_calculater is None:
                 return expression
-            build_query_condition(condition_column, "==", right_calculater)
-            setattr(expression, "syncany_valuer", ["#const", 1])
-            return None
+            return build_query_condition(condition_column, "==", right_calculater)
         elif isinstance(expression, sqlglot_expressions.NEQ):
             condition_column, right_calculater = parse_condition(expression)
             if condition_column is None or right_calculater is None:
                 return expression
-            build_query_condition(condition_column, "!=", right_calculater)
-            setattr(expression, "syncany_valuer", ["#const", 1])
-            return None
+            return build_query_condition(condition_column, "!=", right_calculater)
         elif isinstance(expression, sqlglot_expressions.GT):
             condition_column, right_calculater = parse_condition(expression)
             if condition_column is None or right_calculater is None:
                 return expression
-            build_query_condition(condition_column, ">", right_calculater)
-            setattr(expression, "syncany_valuer", ["#const", 1])
-            return None
+            return build_query_condition(condition_column, ">", right_calculater)
         elif isinstance(expression, sqlglot_expressions.GTE):
             condition_column, right_calculater = parse_condition(expression)
             if condition_column is None or right_calculater is None:
                 return expression
-            build_query_condition(condition_column, ">=", right_calculater)
-            setattr(expression, "syncany_valuer", ["#const", 1])
-            return None
+            return build_query_condition(condition_column, ">=", right_calculater)
         elif isinstance(expression, sqlglot_expressions.LT):
             condition_column, right_calculater = parse_condition(expression)
             if condition_column is None or right_calculater is None:
                 return expression
-            build_query_condition(condition_column, "<", right_calculater)
-            setattr(expression, "syncany_valuer", ["#const", 1])
-            return None
+            return build_query_condition(condition_column, "<", right_calculater)
         elif isinstance(expression, sqlglot_expressions.LTE):
             condition_column, right_calculater = parse_condition(expression)
             if condition_column is None or right_calculater is None:
                 return expression
-            build_query_condition(condition_column, "<=", right_calculater)
-            setattr(expression, "syncany_valuer", ["#const", 1])
-            return None
+            return build_query_condition(condition_column, "<=", right_calculater)
         elif isinstance(expression, sqlglot_expressions.In):
             condition_column, right_calculater = parse_condition(expression)
             if condition_column is None or right_calculater is None:
                 return expression
-            build_query_condition(condition_column, "in", ["@convert_array", right_calculater])
-            setattr(expression, "syncany_valuer", ["#const", 1])
-            return None
+            return build_query_condition(condition_column, "in", ["@convert_array", right_calculater])
         elif isinstance(expression, sqlglot_expressions.Paren):
             return self.compile_where_condition(expression.args.get("this"), config, arguments, primary_table, join_tables)
         else:
             return expression
 
+    def can_add_query_condition(self, condition_querys, condition_exp):
+        # loaders keep one condition per column and operator and take == and in for alternatives
+        if condition_exp in condition_querys:
+            return False
+        return condition_exp not in ("==", "in") or ("==" not in condition_querys and "in" not in condition_querys)
+
     def compile_where_condition_column(self, expression, config, arguments, primary_table, join_tables):
         if self.is_column(expression, config, arguments):
             expression_column = self.parse_column(expression, config, arguments)
@@ -2294,21 +2277,12 @@ class Compiler(object):
             return False, condition_column, self.compile_calculate(value_expression, config, arguments, primary_table, [])
 
         def build_query_condition(condition_column, condition_exp, condition_calculater):
-            if condition_column["typing_name"] not in join_table["querys"]:
-                join_table["querys"][condition_column["typing_name"]] = {}
-            condition_querys = join_table["querys"][condition_column["typing_name"]]
-            if isinstance(condition_querys, dict):
-                if condition_exp not in condition_querys:
-                    condition_querys[condition_exp] = condition_calculater
-                    return None
-                condition_querys = [condition_querys]
-                join_table["querys"][condition_column["typing_name"]] = condition_querys
-            for condition_query in condition_querys:
-                if condition_exp not in condition_query:
-                    condition_query[condition_exp] = condition_calculater
-                    return None
-            condition_querys.append({condition_exp: condition_calculater})
-            return None
+            condition_querys = join_table["querys"].setdefault(condition_column["typing_name"], {})
+            if not self.can_add_query_condition(condition_querys, condition_exp):
+                join_table["columns"].setdefault(condition_column["column_name"], condition_column)
+                join_table["having_expressions"].append(expression)
+                return
+            condition_querys[condition_exp] = condition_calculater
 
         if isinstance(expression, sqlglot_expressions.EQ):
             is_column, condition_column, value_column = parse(expression)
-- 
2.43.0


From e9038b17cb17249449deadab544d9df5924960b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:49 +0000
Subject: [PATCH 59/93] fix: columns in the list of IN were read while the
 storage was queried, before there was a row

---
 syncanysql/compiler.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index e5cb99c..42d755a 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -954,6 +954,8 @@ class Compiler(object):
                     value_items = [self.parse_const(value_expression_item, config, arguments)["value"]
                                    for value_expression_item in right_expression]
                     return left_column, ["#const", value_items]
+                if any([has_column_expression(value_expression_item) for value_expression_item in right_expression]):
+                    return None, None
                 value_items = [self.compile_where_condition_column(value_expression_item, config, arguments, primary_table, join_tables)
                                for value_expression_item in right_expression]
                 return left_column, ["#make", value_items]
@@ -2245,8 +2247,9 @@ class Compiler(object):
             if condition_column and condition_column["table_name"] != join_table["name"]:
                 condition_column = None
             calculate_fields = []
-            if not self.is_subquery(value_expression, config, arguments) and not isinstance(value_expression, list):
-                self.parse_calculate(value_expression, config, arguments, primary_table, calculate_fields)
+            if not self.is_subquery(value_expression, config, arguments):
+                for value_expression_item in (value_expression if isinstance(value_expression, list) else [value_expression]):
+                    self.parse_calculate(value_expression_item, config, arguments, primary_table, calculate_fields)
             if not condition_column or calculate_fields:
                 self.parse_calculate(right_expression if value_expression is left_expression else left_expression,
                                      config, arguments, primary_table, calculate_fields)
-- 
2.43.0


From 1a88b5db6417011a9daaca69d553f4ac28e587ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:49 +0000
Subject: [PATCH 60/93] fix: NOT IN a list of one NULL was true

---
 syncanysql/calculaters/mysql_funcs/logical_funcs.py | 3 +++
 syncanysql/compiler.py                              | 5 ++++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/syncanysql/calculaters/mysql_funcs/logical_funcs.py b/syncanysql/calculaters/mysql_funcs/logical_funcs.py
index 1d52358..0343500 100644
--- a/syncanysql/calculaters/mysql_funcs/logical_funcs.py
+++ b/syncanysql/calculaters/mysql_funcs/logical_funcs.py
@@ -2,6 +2,7 @@
 # 2023/5/29
 # create by: snower
 
+from collections.abc import Iterable
 from syncany.calculaters import typing_filter
 from ...utils import NumberDecimalTypes, ensure_number, ensure_str
 
@@ -189,6 +190,8 @@ def mysql_lte(a, b):
 def mysql_in(a, b):
     if a is None:
         return None
+    if b is None or isinstance(b, (str, bytes)) or not isinstance(b, Iterable):
+        b = [b]
     hs_none = False
     for v in b:
         if v is None:
diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 42d755a..2595fc0 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -1871,7 +1871,8 @@ class Compiler(object):
                 return [
                     ("@mysql::" + func_name) if is_mysql_func(func_name) else ("@" + func_name),
                     self.compile_calculate(expression.args["this"], config, arguments, primary_table, column_join_tables, join_index),
-                    ["@convert_array", value_items] if isinstance(expression, sqlglot_expressions.In) else value_items
+                    ["@convert_array", value_items] if isinstance(expression, sqlglot_expressions.In)
+                    and len(expression.args["expressions"]) > 1 else value_items
                 ]
             if expression.args.get("query"):
                 query_value_calculate = self.compile_calculate(expression.args["query"], config, arguments, primary_table, column_join_tables, join_index)
@@ -1997,6 +1998,8 @@ class Compiler(object):
             return ["@mysql::lte", left_calculater, right_calculater]
         elif isinstance(expression, sqlglot_expressions.In):
             left_calculater, right_calculater = parse(expression)
+            if len(expression.args.get("expressions") or []) == 1:
+                return ["@mysql::in", left_calculater, right_calculater]
             return ["@mysql::in", left_calculater, ["@convert_array", right_calculater]]
         elif isinstance(expression, sqlglot_expressions.Like):
             left_calculater, right_calculater = parse(expression)
-- 
2.43.0


From 5926b3515e2855cbb899dc90591dbe960bfad0b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:49 +0000
Subject: [PATCH 61/93] fix: HAVING with BETWEEN was an error

---
 syncanysql/compiler.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 2595fc0..cc8e994 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -2001,6 +2001,11 @@ class Compiler(object):
             if len(expression.args.get("expressions") or []) == 1:
                 return ["@mysql::in", left_calculater, right_calculater]
             return ["@mysql::in", left_calculater, ["@convert_array", right_calculater]]
+        elif isinstance(expression, sqlglot_expressions.Between):
+            this, low, high = expression.args["this"], expression.args["low"], expression.args["high"]
+            return self.compile_having_condition(sqlglot_expressions.And(this=sqlglot_expressions.GTE(this=this.copy(), expression=low.copy()),
+                                                                         expression=sqlglot_expressions.LTE(this=this.copy(), expression=high.copy())),
+                                                 config, arguments, primary_table)
         elif isinstance(expression, sqlglot_expressions.Like):
             left_calculater, right_calculater = parse(expression)
             return ["@mysql::like", left_calculater, right_calculater]
-- 
2.43.0


From a9469e8e8d6395d8b52679773ef93da99f8a74a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:49 +0000
Subject: [PATCH 62/93] fix: conditions <, <= and != took NULL for true on
 memory tables, subqueries and CTEs

---
 syncanysql/compiler.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index cc8e994..c7fe817 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -973,6 +973,9 @@ class Compiler(object):
             return None, None
 
         def build_query_condition(condition_column, condition_exp, condition_calculater):
+            if primary_table["db"] == "--" and "select_columns" in primary_table and condition_exp in ("!=", "<", "<="):
+                # memory tables take NULL for the smallest value
+                return expression
             condition_querys = config["querys"].setdefault(condition_column["typing_name"], {})
             if not self.can_add_query_condition(condition_querys, condition_exp):
                 return expression
@@ -2289,7 +2292,8 @@ class Compiler(object):
 
         def build_query_condition(condition_column, condition_exp, condition_calculater):
             condition_querys = join_table["querys"].setdefault(condition_column["typing_name"], {})
-            if not self.can_add_query_condition(condition_querys, condition_exp):
+            if (join_table["db"] == "--" and condition_exp in ("!=", "<", "<=")) \
+                    or not self.can_add_query_condition(condition_querys, condition_exp):
                 join_table["columns"].setdefault(condition_column["column_name"], condition_column)
                 join_table["having_expressions"].append(expression)
                 return
-- 
2.43.0


From 6a86f2a6f9c9689900eda2fbccc0c06002fd0d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:47 +0000
Subject: [PATCH 63/93] fix: joins by several columns lost rows of keys seen in
 an earlier batch; correlated subqueries failed with more keys than
 @join_batch

---
 syncanysql/__init__.py |  1 +
 syncanysql/loaders.py  | 28 ++++++++++++++++++++++++++++
 2 files changed, 29 insertions(+)
 create mode 100644 syncanysql/loaders.py

diff --git a/syncanysql/__init__.py b/syncanysql/__init__.py
index fe39833..a4dfd0b 100644
--- a/syncanysql/__init__.py
+++ b/syncanysql/__init__.py
@@ -21,6 +21,7 @@ from .version import version, version_info
 from .parser import SqlParser, SqlSegment, FileParser
 from .config import GlobalConfig
 from .executor import Executor
+from . import loaders
 from .calculaters import GenerateCalculater, AggregateCalculater, StateAggregateCalculater, \
     WindowAggregateCalculater, WindowStateAggregateCalculater
 
diff --git a/syncanysql/loaders.py b/syncanysql/loaders.py
new file mode 100644
index 0000000..6bdabb4
--- /dev/null
+++ b/syncanysql/loaders.py
@@ -0,0 +1,28 @@
+# -*- coding: utf-8 -*-
+# create by: snower
+
+from syncany.loaders import DBJoinLoader, CalculaterDBJoinLoader, register_loader
+
+
+class RequestedKeysMixin(object):
+    # A query for several keys of more than one column returns rows of keys that were not asked for, of which the
+    # loader keeps only the first one, and a calculater loader loses its query when the keys need more than one batch.
+    def load_join(self):
+        primary_keys = list(self.unload_primary_keys)
+        for i in range(0, max(len(primary_keys), 1), self.join_batch):
+            requested_keys = self.unload_primary_keys = set(primary_keys[i: i + self.join_batch])
+            loaded_keys = set(self.data_keys) if len(self.primary_keys) > 1 else None
+            super(RequestedKeysMixin, self).load_join()
+            if loaded_keys is not None:
+                for primary_key in [key for key in self.data_keys if key not in loaded_keys and key not in requested_keys]:
+                    self.data_keys.pop(primary_key)
+
+
+@register_loader("db_join_loader")
+class QueryDBJoinLoader(RequestedKeysMixin, DBJoinLoader):
+    pass
+
+
+@register_loader("calculate_db_join_loader")
+class QueryCalculaterDBJoinLoader(RequestedKeysMixin, CalculaterDBJoinLoader):
+    pass
-- 
2.43.0


From b80af33c6b7f9efd1ede621e338e5c511f810208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:14 +0000
Subject: [PATCH 64/93] fix: an expression of a window function and columns
 lost the columns, and its own column in derived tables, UNION and INSERT

---
 syncanysql/compiler.py      | 21 +++++++++++++++++++--
 syncanysql/taskers/query.py |  3 +++
 2 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index c7fe817..441a18b 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -1507,17 +1507,34 @@ class Compiler(object):
                 config["aggregate"]["window_schema"][column_alias]["aggregate"] = copy.deepcopy(window_aggregate_column)
             else:
                 aggregate_column_alias = "__window_aggregate_value_%d__" % id(window_expression)
-                config["schema"][aggregate_column_alias] = window_aggregate_column
                 setattr(window_expression, "syncany_valuer", "$." + aggregate_column_alias)
                 if not isinstance(config["aggregate"]["window_schema"][column_alias]["aggregate"], dict):
                     config["aggregate"]["window_schema"][column_alias]["aggregate"] = {}
                 config["aggregate"]["window_schema"][column_alias]["aggregate"][aggregate_column_alias] = copy.deepcopy(window_aggregate_column)
 
         if not (len(window_expressions) == 1 and window_expressions[0] is expression):
+            # the final value is calculated from the output rows, so the columns it also needs are carried to them
+            self.compile_window_carry_columns(expression, config, arguments, primary_table, column_alias, join_tables)
             self.compile_select_calculate_column(expression, config, arguments, primary_table, column_alias, join_tables, False)
-            config["aggregate"]["window_schema"][column_alias]["final_value"] = config["schema"].pop(column_alias, None)
+            config["aggregate"]["window_schema"][column_alias]["final_value"] = config["schema"][column_alias]
+            config["schema"][column_alias] = ["#const", None]
         primary_table["select_columns"][column_alias] = expression
 
+    def compile_window_carry_columns(self, expression, config, arguments, primary_table, column_alias, join_tables):
+        if self.is_window_aggregate(expression, config, arguments):
+            return
+        if self.is_column(expression, config, arguments) or isinstance(expression, sqlglot_expressions.Subquery):
+            carry_column_alias = "__window_carry_value_%d__" % id(expression)
+            self.compile_select_calculate_column(expression, config, arguments, primary_table, carry_column_alias, join_tables, False)
+            primary_table["select_columns"].pop(carry_column_alias, None)
+            config["aggregate"]["window_schema"][column_alias]["aggregate"][carry_column_alias] = config["schema"].pop(carry_column_alias)
+            setattr(expression, "syncany_valuer", "$." + carry_column_alias)
+            return
+        for child_expression in expression.args.values():
+            for child_expression_item in (child_expression if isinstance(child_expression, list) else [child_expression]):
+                if isinstance(child_expression_item, sqlglot_expressions.Expression):
+                    self.compile_window_carry_columns(child_expression_item, config, arguments, primary_table, column_alias, join_tables)
+
     def compile_window_key(self, expressions, config, arguments, primary_table, join_tables):
         if not expressions:
             return [["#const", "__k_g__"]]
diff --git a/syncanysql/taskers/query.py b/syncanysql/taskers/query.py
index 6392343..95e638f 100644
--- a/syncanysql/taskers/query.py
+++ b/syncanysql/taskers/query.py
@@ -101,6 +101,9 @@ class QueryTasker(object):
 
     def start(self, name, executor, session_config, manager, arguments):
         dependency_taskers, aggregate = [], self.config.pop("aggregate", None)
+        for window_column in aggregate["window_schema"].values() if aggregate else ():
+            if isinstance(window_column["aggregate"], dict):
+                self.config["schema"].update(window_column["aggregate"])
         if aggregate and aggregate.get("distinct_keys"):
             self.config, distinct_config = self.compile_distinct_config(aggregate), self.config
             distinct_config["name"] = distinct_config["name"] + "#select@distinct"
-- 
2.43.0


From ffafb4d4ec6432c107c1c09033b908329c0e5ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:01 +0000
Subject: [PATCH 65/93] fix: IN @variable was false outside of conditions on
 the own columns of the table, among them correlated subqueries on a joined
 table

---
 syncanysql/compiler.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 441a18b..b22120e 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -1901,14 +1901,15 @@ class Compiler(object):
                     self.compile_calculate(expression.args["this"], config, arguments, primary_table, column_join_tables, join_index),
                     ["@convert_array", query_value_calculate] if isinstance(expression, sqlglot_expressions.In) else query_value_calculate
                 ]
-            if not expression.args.get("expression"):
+            right_expression = expression.args.get("expression") or expression.args.get("field")
+            if not right_expression:
                 return [
                     ("@mysql::" + func_name) if is_mysql_func(func_name) else ("@" + func_name),
                     self.compile_calculate(expression.args["this"], config, arguments, primary_table, column_join_tables, join_index)
                 ]
-            if isinstance(expression.args["expression"], sqlglot_expressions.Interval):
+            if isinstance(right_expression, sqlglot_expressions.Interval):
                 func_name = "date" + func_name
-            value_calculate = self.compile_calculate(expression.args["expression"], config, arguments, primary_table, column_join_tables, join_index)
+            value_calculate = self.compile_calculate(right_expression, config, arguments, primary_table, column_join_tables, join_index)
             return [
                 ("@mysql::" + func_name) if is_mysql_func(func_name) else ("@" + func_name),
                 self.compile_calculate(expression.args["this"], config, arguments, primary_table, column_join_tables, join_index),
@@ -1942,7 +1943,7 @@ class Compiler(object):
             elif expression.args.get("query"):
                 left_expression, right_expression = expression.args["this"], expression.args["query"]
             else:
-                left_expression, right_expression = expression.args["this"], expression.args.get("expression")
+                left_expression, right_expression = expression.args["this"], expression.args.get("expression") or expression.args.get("field")
             if self.is_column(left_expression, config, arguments):
                 left_column = self.parse_column(left_expression, config, arguments)
                 if isinstance(config["schema"], dict) and left_column["column_name"] not in config["schema"]:
@@ -2215,7 +2216,7 @@ class Compiler(object):
             elif expression.args.get("query"):
                 left_expression, right_expression = expression.args["this"], expression.args["query"]
             else:
-                left_expression, right_expression = expression.args["this"], expression.args["expression"]
+                left_expression, right_expression = expression.args["this"], expression.args.get("expression") or expression.args.get("field")
 
             left_column, right_column = None, None
             if self.is_column(left_expression, config, arguments):
@@ -2361,7 +2362,7 @@ class Compiler(object):
                 raise SyncanySqlCompileException('error join on condition, conditions except in conditions must be constants, related sql "%s"'
                                                  % self.to_sql(expression))
             if condition_column:
-                build_query_condition(condition_column, "in", value_column)
+                build_query_condition(condition_column, "in", ["@convert_array", value_column] if expression.args.get("field") else value_column)
         else:
             calculate_fields = []
             self.parse_calculate(expression, config, arguments, primary_table, calculate_fields)
@@ -3289,7 +3290,8 @@ class Compiler(object):
             elif condition_expression.args.get("query"):
                 left_expression, right_expression = condition_expression.args["this"], condition_expression.args["query"]
             else:
-                left_expression, right_expression = condition_expression.args["this"], condition_expression.args["expression"]
+                left_expression, right_expression = condition_expression.args["this"], condition_expression.args.get("expression") \
+                    or condition_expression.args.get("field")
 
             left_column, condition_column, value_expression = None, None, left_expression
             if self.is_column(left_expression, config, arguments):
-- 
2.43.0


From e36438b28a50806cc1478dce3c85885287a13643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:19 +0000
Subject: [PATCH 66/93] fix: a correlated subquery with an aggregate in an
 expression took one aggregate over all keys

---
 syncanysql/compiler.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index b22120e..6ee6da3 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -2601,9 +2601,10 @@ class Compiler(object):
         for select_expression in sub_expression.args["expressions"]:
             select_sql.append(self.generate_sql(select_expression))
             if not has_aggregate_column:
-                has_aggregate_column = self.is_aggregate(select_expression.args["this"] if isinstance(select_expression,
-                                                                                         sqlglot_expressions.Alias) else select_expression,
-                                                         config, arguments)
+                aggregate_expressions = []
+                self.parse_aggregate(select_expression.args["this"] if isinstance(select_expression, sqlglot_expressions.Alias)
+                                     else select_expression, config, arguments, aggregate_expressions)
+                has_aggregate_column = bool(aggregate_expressions)
         for _, join_parent_column in join_parent_columns.items():
             select_sql.append(self.generate_sql(join_parent_column["current_expression"]) + " AS " + join_parent_column["column_alias"])
         for _, join_select_column in join_select_columns.items():
-- 
2.43.0


From 047bcc8db0171bfeae08d9473814318b9de815bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:29 +0000
Subject: [PATCH 67/93] fix: LIMIT and OFFSET of a correlated subquery were
 applied once to the rows of all outer rows

---
 syncanysql/calculaters/__init__.py            |  3 ++-
 .../calculaters/query_tasker_calculater.py    | 14 ++++++++--
 syncanysql/compiler.py                        | 27 ++++++++++++-------
 3 files changed, 31 insertions(+), 13 deletions(-)

diff --git a/syncanysql/calculaters/__init__.py b/syncanysql/calculaters/__init__.py
index 5c2459c..2438cd3 100644
--- a/syncanysql/calculaters/__init__.py
+++ b/syncanysql/calculaters/__init__.py
@@ -8,7 +8,7 @@ from syncany.calculaters import CALCULATERS, Calculater, TypeFormatCalculater, T
 from syncany.calculaters import register_calculater, find_calculater, CalculaterUnknownException
 from syncany.calculaters.import_calculater import ImportCalculater
 from .env_variable_calculater import CurrentEnvVariableCalculater
-from .query_tasker_calculater import ExecuteQueryTaskerCalculater
+from .query_tasker_calculater import ExecuteQueryTaskerCalculater, SubqueryLimitCalculater
 from .row_calculater import *
 from .mysql_calculater import MysqlCalculater, register_mysql_func
 from .generate_calculater import *
@@ -49,6 +49,7 @@ SQL_CALCULATERS = {
     "lag": WindowAggregateLagCalculater,
     "lead": WindowAggregateLeadCalculater,
     "execute_query_tasker": ExecuteQueryTaskerCalculater,
+    "subquery_limit": SubqueryLimitCalculater,
 }
 CALCULATERS.update(SQL_CALCULATERS)
 if not os.environ.get("SYNCANY_PYEVAL_DISABLED"):
diff --git a/syncanysql/calculaters/query_tasker_calculater.py b/syncanysql/calculaters/query_tasker_calculater.py
index 4353d5e..c1640c1 100644
--- a/syncanysql/calculaters/query_tasker_calculater.py
+++ b/syncanysql/calculaters/query_tasker_calculater.py
@@ -4,7 +4,7 @@
 
 import copy
 from syncany.taskers.tasker import _thread_local
-from syncany.calculaters.calculater import LoaderCalculater
+from syncany.calculaters.calculater import Calculater, LoaderCalculater
 
 
 class ExecuteQueryTaskerCalculater(LoaderCalculater):
@@ -74,4 +74,14 @@ class ExecuteQueryTaskerCalculater(LoaderCalculater):
             tasker.tasker_index = self.tasker_index
             executor.runners.extend(tasker.start(config.get("name"), executor, executor.session_config,
                                                  executor.manager, self.arguments))
-            self.tasker, self.executor = tasker, executor
\ No newline at end of file
+            self.tasker, self.executor = tasker, executor
+
+
+class SubqueryLimitCalculater(Calculater):
+    def calculate(self, datas, column_name, offset, limit):
+        if datas is None:
+            return None
+        datas = datas if isinstance(datas, list) else [datas]
+        datas = datas[offset:offset + limit] if limit > 0 else datas[offset:]
+        values = datas if column_name == "*" else [data[column_name] for data in datas]
+        return (values if len(values) > 1 else values[0]) if values else None
diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 6ee6da3..296fa0c 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -1122,6 +1122,17 @@ class Compiler(object):
             else:
                 subquery_interceptor_column = ["#if", interceptor_column, subquery_interceptor_column, ["#const", 0]]
 
+        def compile_limit(value_column, column_name):
+            # one query loads the rows of all outer rows, LIMIT and OFFSET are applied to the rows of each outer row
+            select_expression = expression if isinstance(expression, sqlglot_expressions.Select) else expression.args["this"]
+            if subquery_join_parent_expression is None or not (select_expression.args.get("limit") or select_expression.args.get("offset")):
+                return value_column + [":$." + column_name]
+            limit, offset = [int(select_expression.args[key].args["expression"].args["this"]) if select_expression.args.get(key) else 0
+                             for key in ("limit", "offset")]
+            column_name, _, typing_filter = column_name.partition("|")
+            return ["@subquery_limit", value_column + [":$.*"], ["#const", column_name], ["#const", offset], ["#const", limit]] \
+                + ([":$.*|" + typing_filter] if typing_filter else [])
+
         if not subquery_join_patent_columns or not subquery_join_parent_expression:
             subquery_name, subquery_config = self.compile_subquery(subquery_join_parent_expression or expression, arguments)
             if not isinstance(subquery_config, dict):
@@ -1134,8 +1145,8 @@ class Compiler(object):
             elif typing_filters:
                 column_name = column_name + "|" + typing_filters
             if subquery_interceptor_column:
-                return [db_table, subquery_interceptor_column, ":$." + column_name]
-            return [db_table, ":$." + column_name]
+                return compile_limit([db_table, subquery_interceptor_column], column_name)
+            return compile_limit([db_table], column_name)
 
         if join_tables is None:
             raise SyncanySqlCompileException('error subquery, Only supported in select and where, related sql "%s"' % self.to_sql(expression))
@@ -1154,10 +1165,10 @@ class Compiler(object):
             if typing_filters:
                 column_name = column_name + "|" + typing_filters
         if len(join_keys) == 1:
-            return [join_key_columns[0], ["&.:=@execute_query_tasker::" + join_keys[0], subquery_interceptor_column or {}, {"task_config": subquery_config}],
-                    subquery_interceptor_column, ":$." + column_name]
-        return [join_key_columns, ["&.:=@execute_query_tasker::" + "+".join(join_keys), {}, {"task_config": subquery_config}],
-                subquery_interceptor_column, ":$." + column_name]
+            return compile_limit([join_key_columns[0], ["&.:=@execute_query_tasker::" + join_keys[0], subquery_interceptor_column or {},
+                                                        {"task_config": subquery_config}], subquery_interceptor_column], column_name)
+        return compile_limit([join_key_columns, ["&.:=@execute_query_tasker::" + "+".join(join_keys), {},
+                                                 {"task_config": subquery_config}], subquery_interceptor_column], column_name)
 
     def compile_query_condition_column(self, expression, config, arguments, primary_table, join_tables, expression_column=None, join_index=-1):
         if not expression_column and self.is_column(expression, config, arguments):
@@ -2631,10 +2642,6 @@ class Compiler(object):
             sql.append(self.generate_sql(sub_expression.args["having"]))
         if sub_expression.args.get("order"):
             sql.append(self.generate_sql(sub_expression.args["order"]))
-        if sub_expression.args.get("limit"):
-            sql.append(self.generate_sql(sub_expression.args.get("limit")))
-        if sub_expression.args.get("offset"):
-            sql.append(self.generate_sql(sub_expression.args.get("offset")))
         return maybe_parse(" ".join(sql), dialect=CompilerDialect), join_parent_columns, interceptor_expressions
 
 
-- 
2.43.0


From d25ab311dd4acaa16cd0a5fcfa972030f051a896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:25 +0000
Subject: [PATCH 68/93] fix: DISTINCT of grouped, aggregated or window rows was
 ignored or applied before them

---
 syncanysql/compiler.py | 54 ++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 54 insertions(+)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 296fa0c..552ec2d 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -3051,6 +3051,8 @@ class Compiler(object):
         return isinstance(expression, (sqlglot_expressions.Subquery, sqlglot_expressions.Select, sqlglot_expressions.Union))
 
     def optimize_rewrite(self, expression, config, arguments):
+        if expression.args.get("distinct"):
+            expression = self.optimize_rewrite_distinct(expression, config, arguments)
         from_expression = expression.args.get("from")
         if not from_expression or not from_expression.expressions:
             return expression
@@ -3069,6 +3071,58 @@ class Compiler(object):
                 break
         return expression
 
+    def optimize_rewrite_distinct(self, expression, config, arguments):
+        # DISTINCT is applied to the rows which grouping, aggregates and windows give
+        calculate_expressions, columns = [], {}
+        for select_expression in expression.args["expressions"]:
+            column_expression = select_expression.args["this"] if isinstance(select_expression, sqlglot_expressions.Alias) else select_expression
+            if isinstance(column_expression, sqlglot_expressions.Star) or isinstance(column_expression.args.get("this"), sqlglot_expressions.Star) \
+                    and self.is_column(column_expression, config, arguments):
+                return expression
+            self.parse_aggregate(column_expression, config, arguments, calculate_expressions)
+            self.parse_window_aggregate(column_expression, config, arguments, calculate_expressions)
+            if isinstance(select_expression, sqlglot_expressions.Alias):
+                column_name = select_expression.args["alias"].name
+                column_name = self.mapping.get(column_name, column_name)
+            elif self.is_column(select_expression, config, arguments):
+                column_info = self.parse_column(select_expression, config, arguments)
+                column_name = column_info["column_name"].replace(".", "_")
+                if column_info["table_name"] and column_name in columns:
+                    column_name = column_info["table_name"] + "." + column_name
+            else:
+                column_name = self.generate_sql(select_expression)
+            columns[column_name] = self.generate_sql(column_expression).lower()
+        if not calculate_expressions and not expression.args.get("group"):
+            return expression
+
+        def build_column(column_name):
+            return sqlglot_expressions.column(column_name, table="distinct_select", quoted=True)
+        rows_expression, order_expressions = expression.copy(), []
+        for key in ("distinct", "with", "into", "limit", "offset"):
+            rows_expression.set(key, None)
+        for order_expression in (expression.args["order"].args["expressions"] if expression.args.get("order") else []):
+            order_sql, order_column = self.generate_sql(order_expression.args["this"]), order_expression.args["this"]
+            column_names = [order_column.name] if self.is_column(order_column, config, arguments) and not order_column.args.get("table") \
+                and order_column.name in columns else [column_name for column_name, column_sql in columns.items() if column_sql == order_sql.lower()]
+            if not column_names:
+                order_expressions = []
+                break
+            order_expression = order_expression.copy()
+            order_expression.set("this", sqlglot_expressions.column(column_names[0], quoted=True))
+            order_expressions.append(order_expression)
+        if order_expressions:
+            rows_expression.set("order", None)
+        expression = expression.copy()
+        for key in ("joins", "where", "group", "having", "windows"):
+            expression.set(key, None)
+        expression.set("expressions", [sqlglot_expressions.Alias(this=build_column(column_name),
+                                                                 alias=sqlglot_expressions.to_identifier(column_name, quoted=True))
+                                       for column_name in columns])
+        expression.set("from", sqlglot_expressions.From(expressions=[sqlglot_expressions.Subquery(
+            this=rows_expression, alias=sqlglot_expressions.TableAlias(this=sqlglot_expressions.to_identifier("distinct_select")))]))
+        expression.set("order", sqlglot_expressions.Order(expressions=order_expressions) if order_expressions else None)
+        return expression
+
     def optimize_rewrite_multi_select(self, expression, config, arguments, from_expression):
         primary_table = self.optimize_rewrite_parse_table(expression, config, arguments,
                                                           expression.args["from"].expressions[0])
-- 
2.43.0


From b0c11c1d2355a59d6f4cb5c232e44b1f00e9ecf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:24 +0000
Subject: [PATCH 69/93] fix: a table joined to itself along a chain of joins
 lost rows or failed to pickle a generator

---
 syncanysql/loaders.py | 41 ++++++++++++++++++++++++++++++++++++++---
 1 file changed, 38 insertions(+), 3 deletions(-)

diff --git a/syncanysql/loaders.py b/syncanysql/loaders.py
index 6bdabb4..8a9d56b 100644
--- a/syncanysql/loaders.py
+++ b/syncanysql/loaders.py
@@ -1,15 +1,25 @@
 # -*- coding: utf-8 -*-
 # create by: snower
 
+from collections import defaultdict
 from syncany.loaders import DBJoinLoader, CalculaterDBJoinLoader, register_loader
 
 
 class RequestedKeysMixin(object):
     # A query for several keys of more than one column returns rows of keys that were not asked for, of which the
     # loader keeps only the first one, and a calculater loader loses its query when the keys need more than one batch.
-    def load_join(self):
-        primary_keys = list(self.unload_primary_keys)
-        for i in range(0, max(len(primary_keys), 1), self.join_batch):
+    # The loader of a table that is joined to itself is asked for further keys while it hands out the rows it loaded.
+    @property
+    def primary_loader(self):
+        return self.__dict__.get("primary_loader")
+
+    @primary_loader.setter
+    def primary_loader(self, primary_loader):
+        if primary_loader is not None or "primary_loader" not in self.__dict__:
+            self.__dict__["primary_loader"] = primary_loader
+
+    def load_keys(self, primary_keys):
+        for i in range(0, len(primary_keys), self.join_batch):
             requested_keys = self.unload_primary_keys = set(primary_keys[i: i + self.join_batch])
             loaded_keys = set(self.data_keys) if len(self.primary_keys) > 1 else None
             super(RequestedKeysMixin, self).load_join()
@@ -17,6 +27,31 @@ class RequestedKeysMixin(object):
                 for primary_key in [key for key in self.data_keys if key not in loaded_keys and key not in requested_keys]:
                     self.data_keys.pop(primary_key)
 
+    def fill_matchers(self, matchers):
+        values = [(self.data_keys.get(primary_key), key_matchers) for primary_key, key_matchers in matchers.items()]
+        for value, key_matchers in values:
+            for matcher in key_matchers:
+                matcher.fill(value)
+
+    def load_join(self):
+        while self.matchers:
+            matchers, self.matchers = self.matchers, defaultdict(list)
+            self.load_keys([primary_key for primary_key in matchers if primary_key not in self.data_keys])
+            self.unload_primary_keys, self.load_primary_keys = set([]), set([])
+            self.fill_matchers(matchers)
+        self.loaded = True
+
+    def try_load(self):
+        if self.loaded:
+            return
+        if len(self.unload_primary_keys) >= self.join_batch:
+            return self.load_join()
+        load_primary_keys, self.load_primary_keys = self.load_primary_keys, set([])
+        self.fill_matchers({primary_key: self.matchers.pop(primary_key) for primary_key in load_primary_keys
+                            if primary_key in self.matchers and primary_key in self.data_keys})
+        if not self.matchers:
+            self.loaded = True
+
 
 @register_loader("db_join_loader")
 class QueryDBJoinLoader(RequestedKeysMixin, DBJoinLoader):
-- 
2.43.0


From 05a7486a2863b74b57b74373be93f0cb388245ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:27 +0000
Subject: [PATCH 70/93] fix: a joined table without a selected column was not
 joined and sibling joins were zipped instead of crossed

---
 syncanysql/compiler.py | 119 +++++++++++++++++++++++++++++------------
 1 file changed, 86 insertions(+), 33 deletions(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 552ec2d..aed8d7b 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -466,7 +466,8 @@ class Compiler(object):
 
     def compile_select(self, expression, config, arguments):
         primary_table = {"db": None, "name": None, "table_name": None, "table_alias": None, "seted_primary_keys": False,
-                         "loader_primary_keys": [], "outputer_primary_keys": [], "columns": {}, "subquery": None, "select_columns": {}}
+                         "loader_primary_keys": [], "outputer_primary_keys": [], "columns": {}, "subquery": None, "select_columns": {},
+                         "unused_join_table": None}
 
         from_expression = expression.args.get("from")
         if not from_expression:
@@ -518,6 +519,10 @@ class Compiler(object):
         select_expressions = expression.args.get("expressions")
         if not select_expressions:
             raise SyncanySqlCompileException('unknown select columns, related sql "%s"' % self.to_sql(expression))
+        if join_tables:
+            primary_table["unused_join_table"] = self.parse_unused_join_table(
+                select_expressions + (group_expression.args["expressions"] if group_expression else []), config, arguments,
+                primary_table, join_tables)
         config["schema"] = {}
         for select_expression in select_expressions:
             if isinstance(select_expression, sqlglot_expressions.Star):
@@ -541,7 +546,8 @@ class Compiler(object):
                     column_alias = self.mapping[column_alias]
                 if self.is_const(select_expression.args["this"], config, arguments):
                     const_info = self.parse_const(select_expression.args["this"], config, arguments)
-                    config["schema"][column_alias] = self.compile_const(select_expression.args["this"], config, arguments, const_info)
+                    config["schema"][column_alias] = self.compile_select_const_column(select_expression.args["this"], config, arguments,
+                                                                                      primary_table, const_info, join_tables)
                     continue
                 elif self.is_column(select_expression.args["this"], config, arguments):
                     column_expression = select_expression.args["this"]
@@ -554,7 +560,8 @@ class Compiler(object):
             elif self.is_const(select_expression, config, arguments):
                 const_info = self.parse_const(select_expression, config, arguments)
                 column_alias = self.generate_sql(select_expression)
-                config["schema"][column_alias] = self.compile_const(select_expression, config, arguments, const_info)
+                config["schema"][column_alias] = self.compile_select_const_column(select_expression, config, arguments, primary_table,
+                                                                                  const_info, join_tables)
                 continue
             elif self.is_window_aggregate(select_expression, config, arguments):
                 column_alias = self.generate_sql(select_expression)
@@ -730,22 +737,34 @@ class Compiler(object):
             self.compile_select_column(expression, config, arguments, primary_table, name, column_info, join_tables)
         return True
 
+    def compile_select_const_column(self, expression, config, arguments, primary_table, const_info, join_tables):
+        const_column = self.compile_const(expression, config, arguments, const_info)
+        unused_join_table_names = self.take_unused_join_table(primary_table, set([]))
+        if not unused_join_table_names:
+            return const_column
+        column_join_tables = []
+        self.compile_join_column_tables(expression, config, arguments, primary_table,
+                                        [join_tables[name] for name in unused_join_table_names], join_tables, column_join_tables)
+        const_column = ["#if", "$." + (column_join_tables[0]["primary_keys"] or ["id"])[0].split("|")[0], const_column, const_column]
+        return self.compile_join_column(expression, config, arguments, primary_table, const_column, column_join_tables)
+
     def compile_select_column(self, expression, config, arguments, primary_table, column_alias, column_info, join_tables):
         if not column_alias:
             column_alias = column_info["column_name"].replace(".", "_")
             if column_info["table_name"] and column_alias in config["schema"]:
                 column_alias = column_info["table_name"] + "." + column_info["column_name"].replace(".", "_")
+        column_join_tables, calculate_table_names = [], set([])
         if column_info["table_name"] and column_info["table_name"] != primary_table["table_name"]:
             if column_info["table_name"] not in join_tables:
                 raise SyncanySqlCompileException('error join, table %s is unknown, related sql "%s"' %
                                                  (column_info["table_name"], self.to_sql(expression)))
-            column_join_tables = []
+            calculate_table_names.add(column_info["table_name"])
+        if self.take_unused_join_table(primary_table, calculate_table_names):
             self.compile_join_column_tables(expression, config, arguments, primary_table,
-                                            [join_tables[column_info["table_name"]]], join_tables,
-                                            column_join_tables)
-            config["schema"][column_alias] = self.compile_join_column(expression, config, arguments, primary_table, 
-                                                                      self.compile_column(expression, config, arguments, 
-                                                                                          column_info), column_join_tables)
+                                            [join_tables[name] for name in calculate_table_names], join_tables, column_join_tables)
+            column = self.compile_join_column_field(expression, config, arguments, primary_table, -1, column_info, column_join_tables)
+            config["schema"][column_alias] = self.compile_join_column(expression, config, arguments, primary_table, column,
+                                                                      column_join_tables)
         else:
             config["schema"][column_alias] = self.compile_column(expression, config, arguments, column_info)
         if not column_info["table_name"] or column_info["table_name"] == primary_table["table_name"]:
@@ -776,7 +795,7 @@ class Compiler(object):
                 raise SyncanySqlCompileException('error select column, join table %s is unknown, related sql "%s"'
                                                  % (calculate_field["table_name"], self.to_sql(expression)))
             calculate_table_names.add(calculate_field["table_name"])
-        if calculate_table_names:
+        if self.take_unused_join_table(primary_table, calculate_table_names):
             column_join_tables = []
             self.compile_join_column_tables(expression, config, arguments, primary_table,
                                             [join_tables[calculate_table_name] for calculate_table_name in calculate_table_names],
@@ -800,20 +819,45 @@ class Compiler(object):
                                    column_join_tables):
         if not current_join_tables:
             return
-        current_join_table_names = {current_join_table["name"] for current_join_table in current_join_tables}
-        dup_column_join_tables = []
-        for column_join_table in column_join_tables:
-            if column_join_table["name"] in current_join_table_names:
-                dup_column_join_tables.append(column_join_table)
-        for dup_column_join_table in dup_column_join_tables:
-            column_join_tables.remove(dup_column_join_table)
-        column_join_tables.extend(current_join_tables)
-        column_join_names = sorted(list({join_column["table_name"] for join_table in current_join_tables
-                                         for join_column in join_table["join_columns"] if join_column["table_name"] and join_column["table_name"] != primary_table["table_name"]}),
-                                   key=lambda x: 0xffffff if x == primary_table["table_name"] else join_tables[x]["ref_count"])
-        self.compile_join_column_tables(expression, config, arguments, primary_table,
-                                        [join_tables[column_join_name] for column_join_name in column_join_names
-                                         if column_join_name != primary_table["table_name"]], join_tables, column_join_tables)
+        # every column takes the same walk through the joined tables up to the last table it needs, the tables before it
+        # multiply its rows even when it does not use them, so that the values of all columns are those of one combination
+        join_table_names = self.order_join_tables(join_tables)
+        current_join_index = max(join_table_names.index(current_join_table["name"]) for current_join_table in current_join_tables)
+        column_join_tables[:] = [join_tables[name] for name in join_table_names[:current_join_index + 1][::-1]]
+
+    def order_join_tables(self, join_tables):
+        join_table_names = []
+
+        def order_join_table(name):
+            if name in join_table_names:
+                return
+            for join_column in join_tables[name]["join_columns"]:
+                if join_column["table_name"] in join_tables and join_column["table_name"] != name:
+                    order_join_table(join_column["table_name"])
+            join_table_names.append(name)
+
+        for name in join_tables:
+            order_join_table(name)
+        return join_table_names
+
+    def parse_unused_join_table(self, expressions, config, arguments, primary_table, join_tables):
+        # a table that no column takes a value from still multiplies or drops rows
+        join_table_name, calculate_fields = self.order_join_tables(join_tables)[-1], []
+        for expression in expressions:
+            if isinstance(expression, sqlglot_expressions.Column) and isinstance(expression.args.get("this"), sqlglot_expressions.Star):
+                if expression.args["table"].name == join_table_name:
+                    return None
+                continue
+            self.parse_calculate(expression, config, arguments, primary_table, calculate_fields)
+        if any([calculate_field["table_name"] == join_table_name for calculate_field in calculate_fields]):
+            return None
+        return join_table_name
+
+    def take_unused_join_table(self, primary_table, calculate_table_names):
+        if primary_table["unused_join_table"]:
+            calculate_table_names.add(primary_table["unused_join_table"])
+            primary_table["unused_join_table"] = None
+        return calculate_table_names
 
     def compile_join_column(self, expression, config, arguments, primary_table, column, column_join_tables):
         jit_define_name = None
@@ -1374,22 +1418,26 @@ class Compiler(object):
     def compile_aggregate_value(self, expression, config, arguments, primary_table, join_tables, value_expressions):
         if isinstance(expression, sqlglot_expressions.Count) and isinstance(expression.args["this"],
                                                                             sqlglot_expressions.Star):
-            return [["#const", 0]]
+            return [self.compile_select_const_column(expression, config, arguments, primary_table, {"value": 0}, join_tables)]
         if not value_expressions:
-            return [["#const", None]]
+            return [self.compile_select_const_column(expression, config, arguments, primary_table, {"value": None}, join_tables)]
 
         value_column = []
         for value_expression in value_expressions:
+            if primary_table["unused_join_table"] and self.is_const(value_expression, config, arguments):
+                value_column.append(self.compile_select_const_column(value_expression, config, arguments, primary_table,
+                                                                     self.parse_const(value_expression, config, arguments), join_tables))
+                continue
             calculate_fields = []
             self.parse_calculate(value_expression, config, arguments, primary_table, calculate_fields)
             calculate_fields = [calculate_field for calculate_field in calculate_fields if calculate_field["table_name"]
                                 and calculate_field["table_name"] != primary_table["table_name"]]
-            if not calculate_fields:
+            calculate_table_names = self.take_unused_join_table(primary_table, set([]))
+            if not calculate_fields and not calculate_table_names:
                 value_column.append(self.compile_calculate(value_expression, config, arguments, primary_table, []))
                 continue
 
             column_join_tables = []
-            calculate_table_names = set([])
             for calculate_field in calculate_fields:
                 if calculate_field["table_name"] not in join_tables:
                     raise SyncanySqlCompileException('error join column, join table %s unknown, related sql "%s"' %
@@ -1478,7 +1526,8 @@ class Compiler(object):
             order_column = self.compile_window_order(order_expression, config, arguments, primary_table,
                                                      join_tables) if order_expression else None
             value_column = self.compile_window_value(window_expression.args["this"], config, arguments, primary_table,
-                                                     join_tables, value_expressions) if value_expressions else None
+                                                     join_tables, value_expressions) \
+                if value_expressions or primary_table["unused_join_table"] else None
             is_window_aggregate_calculate, aggregate_calculate, final_calculate = self.compile_window_calculate(window_expression)
             partition_calculate = "$.partition_key" if partition_column is not None else None
             # windows with equal order options share their partitions, so the name has to identify the whole window
@@ -1596,22 +1645,26 @@ class Compiler(object):
     def compile_window_value(self, expression, config, arguments, primary_table, join_tables, value_expressions):
         if isinstance(expression, sqlglot_expressions.Count) and isinstance(expression.args["this"],
                                                                             sqlglot_expressions.Star):
-            return [["#const", 0]]
+            return [self.compile_select_const_column(expression, config, arguments, primary_table, {"value": 0}, join_tables)]
         if not value_expressions:
-            return [["#const", None]]
+            return [self.compile_select_const_column(expression, config, arguments, primary_table, {"value": None}, join_tables)]
 
         value_column = []
         for value_expression in value_expressions:
+            if primary_table["unused_join_table"] and self.is_const(value_expression, config, arguments):
+                value_column.append(self.compile_select_const_column(value_expression, config, arguments, primary_table,
+                                                                     self.parse_const(value_expression, config, arguments), join_tables))
+                continue
             calculate_fields = []
             self.parse_calculate(value_expression, config, arguments, primary_table, calculate_fields)
             calculate_fields = [calculate_field for calculate_field in calculate_fields if calculate_field["table_name"]
                                 and calculate_field["table_name"] != primary_table["table_name"]]
-            if not calculate_fields:
+            calculate_table_names = self.take_unused_join_table(primary_table, set([]))
+            if not calculate_fields and not calculate_table_names:
                 value_column.append(self.compile_calculate(value_expression, config, arguments, primary_table, []))
                 continue
 
             column_join_tables = []
-            calculate_table_names = set([])
             for calculate_field in calculate_fields:
                 if calculate_field["table_name"] not in join_tables:
                     raise SyncanySqlCompileException('error join column, join table %s unknown, related sql "%s"' %
-- 
2.43.0


From f566611368e1a7c9ac5617168a582633e47ea616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:31 +0000
Subject: [PATCH 71/93] fix: a subquery within an expression of a joined table
 gave NULL or a compile error

---
 syncanysql/compiler.py | 57 +++++++++++++++++++++---------------------
 1 file changed, 28 insertions(+), 29 deletions(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index aed8d7b..a14d19c 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -1092,29 +1092,6 @@ class Compiler(object):
             if not expression_column["table_name"] or expression_column["table_name"] == primary_table["table_name"]:
                 return self.compile_column(expression, config, arguments, expression_column)
 
-        def parse_calculate_expression(condition_expression):
-            if hasattr(condition_expression, "syncany_valuer"):
-                return
-            if not isinstance(condition_expression, sqlglot_expressions.Expression):
-                return
-            if self.is_subquery(condition_expression, config, arguments):
-                condition_query_condition = self.compile_query_condition(condition_expression, config, arguments, primary_table, join_tables, None)
-                setattr(condition_expression, "syncany_valuer", condition_query_condition)
-                return
-            if self.is_column(condition_expression, config, arguments) or self.is_const(condition_expression, config, arguments):
-                return
-            for _, child_expression in condition_expression.args.items():
-                if isinstance(child_expression, list):
-                    for child_expression_item in child_expression:
-                        if not isinstance(child_expression_item, sqlglot_expressions.Expression) or self.is_const(child_expression_item, config, arguments):
-                            continue
-                        parse_calculate_expression(child_expression_item)
-                else:
-                    if not isinstance(child_expression, sqlglot_expressions.Expression) or self.is_const(child_expression, config, arguments):
-                        continue
-                    parse_calculate_expression(child_expression)
-        parse_calculate_expression(expression)
-
         calculate_fields = []
         self.parse_calculate(expression, config, arguments, primary_table, calculate_fields)
         calculate_fields = [calculate_field for calculate_field in calculate_fields if calculate_field["table_name"]
@@ -1135,7 +1112,8 @@ class Compiler(object):
         calculate_column = self.compile_calculate(expression, config, arguments, primary_table, column_join_tables)
         return self.compile_join_column(expression, config, arguments, primary_table, calculate_column, column_join_tables)
 
-    def compile_query_condition(self, expression, config, arguments, primary_table, join_tables, typing_filters):
+    def compile_query_condition(self, expression, config, arguments, primary_table, join_tables, typing_filters,
+                                column_join_tables=None, join_index=-1):
         def parse_subquery_select_column_name(subquery_config, exclude_keys=None):
             if isinstance(subquery_config["schema"], dict):
                 subquery_schema = subquery_config["schema"]
@@ -1159,8 +1137,12 @@ class Compiler(object):
                                    and func_expression.key.lower() in ("exists", "yield_array"))
         subquery_interceptor_column = None
         for interceptor_expression in subquery_interceptor_expressions[::-1]:
-            interceptor_column = self.compile_query_condition_column(interceptor_expression, config, arguments, primary_table,
-                                                                     join_tables, None, -2)
+            if column_join_tables:
+                interceptor_column = self.compile_calculate(interceptor_expression, config, arguments, primary_table,
+                                                            column_join_tables, join_index - 1)
+            else:
+                interceptor_column = self.compile_query_condition_column(interceptor_expression, config, arguments, primary_table,
+                                                                         join_tables, None, -2)
             if subquery_interceptor_column is None:
                 subquery_interceptor_column = ["#if", interceptor_column, ["#const", 1], ["#const", 0]]
             else:
@@ -1200,6 +1182,11 @@ class Compiler(object):
         join_keys, join_key_columns = [], []
         for _, join_parent_column in subquery_join_patent_columns.items():
             join_keys.append(join_parent_column["column_alias"])
+            if column_join_tables:
+                join_key_columns.append(self.compile_join_column_field(join_parent_column["parent_column"]["expression"], config, arguments,
+                                                                       primary_table, join_index, join_parent_column["parent_column"],
+                                                                       column_join_tables))
+                continue
             join_key_columns.append(self.compile_query_condition_column(join_parent_column["parent_column"]["expression"], config, arguments,
                                                                         primary_table, join_tables, join_parent_column["parent_column"]))
         if is_not_extracting_value:
@@ -1883,7 +1870,7 @@ class Compiler(object):
         elif self.is_subquery(expression, config, arguments):
             return self.compile_query_condition(expression, config, arguments, primary_table,
                                                 {column_join_table["name"]: column_join_table for column_join_table in column_join_tables},
-                                                None)
+                                                None, column_join_tables, join_index)
         elif isinstance(expression, sqlglot_expressions.Paren):
             return self.compile_calculate(expression.args["this"], config, arguments, primary_table, column_join_tables, join_index)
         elif isinstance(expression, sqlglot_expressions.Between):
@@ -2471,8 +2458,9 @@ class Compiler(object):
         elif isinstance(expression, sqlglot_expressions.Parameter):
             if isinstance(expression, AssignParameter):
                 self.parse_calculate(expression.args["expression"], config, arguments, primary_table, calculate_fields)
-        elif self.is_subquery(expression, config, arguments) or isinstance(expression, (sqlglot_expressions.Star,
-                                                                                        sqlglot_expressions.Interval, sqlglot_expressions.DataType)):
+        elif self.is_subquery(expression, config, arguments):
+            self.parse_subquery_calculate(expression, config, arguments, primary_table, calculate_fields)
+        elif isinstance(expression, (sqlglot_expressions.Star, sqlglot_expressions.Interval, sqlglot_expressions.DataType)):
             pass
         elif self.is_const(expression, config, arguments):
             pass
@@ -2526,6 +2514,17 @@ class Compiler(object):
                     continue
                 self.parse_window_aggregate(child_expression, config, arguments, window_aggregate_expressions)
 
+    def parse_subquery_calculate(self, expression, config, arguments, primary_table, calculate_fields):
+        # columns of joined tables of the outer query
+        table_names = set([table_expression.alias_or_name for table_expression
+                           in expression.find_all(sqlglot_expressions.Table, sqlglot_expressions.Subquery)])
+        for column_expression in expression.find_all(sqlglot_expressions.Column):
+            if not column_expression.args.get("table") or not self.is_column(column_expression, config, arguments):
+                continue
+            column = self.parse_column(column_expression, config, arguments)
+            if column["table_name"] and column["table_name"] != primary_table["table_name"] and column["table_name"] not in table_names:
+                calculate_fields.append(column)
+
     def parse_subquery(self, expression, config, arguments, primary_table, join_tables):
         if isinstance(expression, sqlglot_expressions.Select):
             sub_expression = expression
-- 
2.43.0


From 50c636ebf90ef213a74c5009ae1c1545a9d7da10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:47 +0000
Subject: [PATCH 72/93] fix: expressions of aggregates and group columns
 evaluated the columns as NULL

---
 syncanysql/compiler.py | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index a14d19c..e5cc8ac 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -1343,6 +1343,9 @@ class Compiler(object):
                 setattr(aggregate_expressions[i], "syncany_valuer",
                         [final_calculate, "$." + column_alias + "." + aggregate_value_key]
                         if final_calculate else ("$." + column_alias + "." + aggregate_value_key))
+            # the final value is calculated from the output rows, so the columns it also needs are carried to them
+            self.compile_aggregate_carry_columns(expression, config, arguments, primary_table, column_alias, join_tables,
+                                                 value_column, calculate_column, reduce_column)
             self.compile_select_calculate_column(expression, config, arguments, primary_table, column_alias,
                                                  join_tables, False)
             aggregate_column = {
@@ -1362,6 +1365,24 @@ class Compiler(object):
         config["aggregate"]["schema"][column_alias] = aggregate_column
         primary_table["select_columns"][column_alias] = expression
 
+    def compile_aggregate_carry_columns(self, expression, config, arguments, primary_table, column_alias, join_tables,
+                                        value_column, calculate_column, reduce_column):
+        if hasattr(expression, "syncany_valuer"):
+            return
+        if self.is_column(expression, config, arguments) or isinstance(expression, sqlglot_expressions.Subquery):
+            carry_key = "value_%d" % id(expression)
+            value_column[1][carry_key] = self.compile_aggregate_value(expression, config, arguments, primary_table,
+                                                                      join_tables, [expression])[0]
+            calculate_column[1][carry_key] = "$$.value." + carry_key
+            reduce_column[1][carry_key] = "$$." + column_alias + "." + carry_key
+            setattr(expression, "syncany_valuer", "$." + column_alias + "." + carry_key)
+            return
+        for child_expression in expression.args.values():
+            for child_expression_item in (child_expression if isinstance(child_expression, list) else [child_expression]):
+                if isinstance(child_expression_item, sqlglot_expressions.Expression):
+                    self.compile_aggregate_carry_columns(child_expression_item, config, arguments, primary_table, column_alias,
+                                                         join_tables, value_column, calculate_column, reduce_column)
+
     def compile_aggregate_key(self, expression, config, arguments, primary_table, join_tables):
         if not expression:
             return [["#const", "__k_g__"]]
-- 
2.43.0


From 2f2906decad6d552a0aed62048fed376e8660af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:22 +0000
Subject: [PATCH 73/93] fix: RIGHT JOIN dropped unmatched rows when ON has more
 than column equalities

---
 syncanysql/compiler.py | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index e5cc8ac..1bf5070 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -3243,6 +3243,29 @@ class Compiler(object):
         return maybe_parse(" ".join(sql), dialect=CompilerDialect)
 
     def optimize_rewrite_right_join(self, expression, config, arguments):
+        # a RIGHT JOIN b ON condition is b LEFT JOIN a ON condition, the tables joined to a before are joined after it
+        primary_expression, join_expressions = expression.args["from"].expressions[0], []
+        for join_expression in expression.args["joins"]:
+            if not join_expression.side or join_expression.side.lower() != "right":
+                join_expressions.append(join_expression)
+                continue
+            join_table_names = set([self.optimize_rewrite_parse_table(expression, config, arguments, left_expression.args["this"])["table_name"]
+                                    for left_expression in join_expressions])
+            on_table_names = set([self.parse_column(column_expression, config, arguments)["table_name"] for column_expression
+                                  in join_expression.args["on"].find_all(sqlglot_expressions.Column)]) \
+                if join_expression.args.get("on") else set([])
+            if any([left_expression.kind for left_expression in join_expressions]) or (on_table_names & join_table_names):
+                return self.optimize_rewrite_chain_right_join(expression, config, arguments)
+            left_expression = join_expression.copy()
+            left_expression.set("this", primary_expression.copy())
+            left_expression.set("side", "LEFT")
+            primary_expression, join_expressions = join_expression.args["this"], [left_expression] + join_expressions
+        expression = expression.copy()
+        expression.set("from", sqlglot_expressions.From(expressions=[primary_expression.copy()]))
+        expression.set("joins", [join_expression.copy() for join_expression in join_expressions])
+        return expression
+
+    def optimize_rewrite_chain_right_join(self, expression, config, arguments):
         primary_table = self.optimize_rewrite_parse_table(expression, config, arguments,
                                                           expression.args["from"].expressions[0])
         if not primary_table["table_name"]:
-- 
2.43.0


From d13bb27bb0ea4ee5baa39a760c024aef4f235c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:09 +0000
Subject: [PATCH 74/93] fix: LEFT JOIN without an equality of columns dropped
 the rows that match nothing

---
 syncanysql/__init__.py |  2 +-
 syncanysql/valuers.py  | 54 ++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 55 insertions(+), 1 deletion(-)
 create mode 100644 syncanysql/valuers.py

diff --git a/syncanysql/__init__.py b/syncanysql/__init__.py
index a4dfd0b..1445ce3 100644
--- a/syncanysql/__init__.py
+++ b/syncanysql/__init__.py
@@ -21,7 +21,7 @@ from .version import version, version_info
 from .parser import SqlParser, SqlSegment, FileParser
 from .config import GlobalConfig
 from .executor import Executor
-from . import loaders
+from . import loaders, valuers
 from .calculaters import GenerateCalculater, AggregateCalculater, StateAggregateCalculater, \
     WindowAggregateCalculater, WindowStateAggregateCalculater
 
diff --git a/syncanysql/valuers.py b/syncanysql/valuers.py
new file mode 100644
index 0000000..f4cfc00
--- /dev/null
+++ b/syncanysql/valuers.py
@@ -0,0 +1,54 @@
+# -*- coding: utf-8 -*-
+# create by: snower
+
+from syncany.valuers import DBLoadValuer, register_valuer
+from syncany.valuers.db_load import ContextDBLoadValuer
+
+
+class NullRowMixin(object):
+    # A left join on other conditions than equal columns keeps the rows that no row of the joined table meets them for.
+    def clone(self, contexter=None, **kwargs):
+        valuer = super(NullRowMixin, self).clone(contexter, **kwargs)
+        if isinstance(valuer, ContextDBLoadValuer):
+            valuer.__class__ = ContextQueryDBLoadValuer
+        return valuer
+
+    def require_null_row(self):
+        return self.require_yield_values and self.is_in_depth_citation and (self.intercept_valuer or self.foreign_querys)
+
+    def get(self):
+        if self.wait_loaded or self.intercept_wait_loaded or not self.require_null_row():
+            return super(NullRowMixin, self).get()
+        values = [data for data in self.loader.get() if not self.intercept_valuer or self.intercept_valuer.fill_get(data)]
+        if len(values) <= 1:
+            return self.return_valuer.fill_get(values[0] if values else None)
+        return (self.return_valuer.fill_get(value) for value in values)
+
+
+@register_valuer("db_load_valuer")
+class QueryDBLoadValuer(NullRowMixin, DBLoadValuer):
+    def fill(self, data):
+        super(QueryDBLoadValuer, self).fill(data)
+        if self.wait_loaded and self.require_null_row() and not self.value:
+            self.value = [self.return_valuer.clone(inherited=True).fill(None)]
+        return self
+
+
+class ContextQueryDBLoadValuer(NullRowMixin, ContextDBLoadValuer):
+    def get(self):
+        contexter_values = self.contexter.values
+        try:
+            return super(ContextQueryDBLoadValuer, self).get()
+        finally:
+            self.contexter.values = contexter_values
+
+    def fill(self, data):
+        super(ContextQueryDBLoadValuer, self).fill(data)
+        if self.wait_loaded and self.require_null_row() and not self.value:
+            contexter_values = self.contexter.values
+            self.return_valuer.contexter.values = self.contexter.create_inherit_values(contexter_values)
+            self.return_valuer.fill(None)
+            value_valuers = [(self.return_valuer, self.return_valuer.contexter.values)]
+            self.contexter.values = contexter_values
+            self.value = value_valuers
+        return self
-- 
2.43.0


From a5f12e43ccd98f25caae6120d52ea6566ac6b394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:59 +0000
Subject: [PATCH 75/93] fix: JOIN USING was executed as a cross join

---
 syncanysql/compiler.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 1bf5070..74e1775 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -3134,6 +3134,7 @@ class Compiler(object):
 
         if not expression.args.get("joins") or not expression.args.get("expressions"):
             return expression
+        expression = self.optimize_rewrite_using_join(expression, config, arguments)
         for join_expression in expression.args["joins"]:
             if join_expression.side and join_expression.side.lower() == "right":
                 expression = self.optimize_rewrite_right_join(expression, config, arguments)
@@ -3242,6 +3243,19 @@ class Compiler(object):
             sql.append(self.generate_sql(expression.args.get("offset")))
         return maybe_parse(" ".join(sql), dialect=CompilerDialect)
 
+    def optimize_rewrite_using_join(self, expression, config, arguments):
+        if not any([join_expression.args.get("using") for join_expression in expression.args["joins"]]):
+            return expression
+        expression = expression.copy()
+        table_name = expression.args["from"].expressions[0].alias_or_name
+        for join_expression in expression.args["joins"]:
+            for using_expression in join_expression.args.get("using") or []:
+                join_expression.on(sqlglot_expressions.EQ(
+                    this=sqlglot_expressions.column(using_expression.name, table=table_name),
+                    expression=sqlglot_expressions.column(using_expression.name, table=join_expression.args["this"].alias_or_name)), copy=False)
+            join_expression.set("using", None)
+        return expression
+
     def optimize_rewrite_right_join(self, expression, config, arguments):
         # a RIGHT JOIN b ON condition is b LEFT JOIN a ON condition, the tables joined to a before are joined after it
         primary_expression, join_expressions = expression.args["from"].expressions[0], []
-- 
2.43.0


From ad94c0e6612b60710dcc5148010fc87b3cde3f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:08 +0000
Subject: [PATCH 76/93] fix: a join condition with a subquery next to other
 conditions matched no row

---
 syncanysql/valuers.py | 57 +++++++++++++++++++++++++++++++++++++------
 1 file changed, 49 insertions(+), 8 deletions(-)

diff --git a/syncanysql/valuers.py b/syncanysql/valuers.py
index f4cfc00..965d847 100644
--- a/syncanysql/valuers.py
+++ b/syncanysql/valuers.py
@@ -38,17 +38,58 @@ class ContextQueryDBLoadValuer(NullRowMixin, ContextDBLoadValuer):
     def get(self):
         contexter_values = self.contexter.values
         try:
-            return super(ContextQueryDBLoadValuer, self).get()
+            if self.wait_loaded or not self.intercept_wait_loaded:
+                return super(ContextQueryDBLoadValuer, self).get()
+            return self.get_intercepted(self.load_intercepted())
         finally:
             self.contexter.values = contexter_values
 
     def fill(self, data):
-        super(ContextQueryDBLoadValuer, self).fill(data)
+        if not self.wait_loaded or not self.intercept_wait_loaded:
+            super(ContextQueryDBLoadValuer, self).fill(data)
+        else:
+            if self.inherit_valuers:
+                for inherit_valuer in self.inherit_valuers:
+                    inherit_valuer.fill(data)
+            values = self.load_intercepted()
+            if not self.require_yield_values:
+                self.return_valuer.fill(values[0] if len(values) == 1 else values)
+                return self
+            self.fill_values(values)
         if self.wait_loaded and self.require_null_row() and not self.value:
-            contexter_values = self.contexter.values
-            self.return_valuer.contexter.values = self.contexter.create_inherit_values(contexter_values)
-            self.return_valuer.fill(None)
-            value_valuers = [(self.return_valuer, self.return_valuer.contexter.values)]
-            self.contexter.values = contexter_values
-            self.value = value_valuers
+            self.fill_values([None])
         return self
+
+    def fill_values(self, values):
+        contexter_values, value_valuers = self.contexter.values, []
+        for value in values:
+            self.return_valuer.contexter.values = self.contexter.create_inherit_values(contexter_values)
+            self.return_valuer.fill(value)
+            value_valuers.append((self.return_valuer, self.return_valuer.contexter.values))
+        self.contexter.values = contexter_values
+        self.value = value_valuers
+
+    def load_intercepted(self):
+        contexter_values, intercept_valueses = self.contexter.values, []
+        for data in self.loader.get():
+            self.intercept_valuer.contexter.values = self.contexter.create_inherit_values(contexter_values)
+            self.intercept_valuer.fill(data)
+            intercept_valueses.append((data, self.intercept_valuer.contexter.values))
+        values = []
+        for data, intercept_values in intercept_valueses:
+            self.intercept_valuer.contexter.values = intercept_values
+            if self.intercept_valuer.get():
+                values.append(data)
+        self.contexter.values = contexter_values
+        return values
+
+    def get_intercepted(self, values):
+        if not self.require_yield_values:
+            return self.return_valuer.fill_get(values[0] if len(values) == 1 else values)
+        if len(values) == 1:
+            return self.return_valuer.fill_get(values[0])
+        if not values:
+            return self.return_valuer.fill_get(None) if self.require_null_row() else None
+        if not self.is_in_depth_citation:
+            return [self.return_valuer.fill_get(value) for value in values]
+        return (self.return_valuer.fill_get(value) for value in values)
-- 
2.43.0


From 43fe04986b72570796dce8f729951063c3241b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:58 +0000
Subject: [PATCH 77/93] fix: a statement writing to a table that it reads saw
 its own rows in batches

---
 syncanysql/taskers/query.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/syncanysql/taskers/query.py b/syncanysql/taskers/query.py
index 95e638f..1fab475 100644
--- a/syncanysql/taskers/query.py
+++ b/syncanysql/taskers/query.py
@@ -128,6 +128,8 @@ class QueryTasker(object):
                 arguments["@batch"] = 0
             elif self.config["output"].split(" use ")[-1] in ("UDI", "DI"):
                 arguments["@batch"] = 0
+            elif not arguments.get("@loop", False) and self.is_load_output():
+                arguments["@batch"] = 0
         limit, batch = int(arguments.get("@limit", 0)), int(arguments.get("@batch", 0))
         require_reduce = False
         if aggregate and (aggregate.get("schema") or aggregate["window_schema"]):
@@ -385,6 +387,18 @@ class QueryTasker(object):
         if not final_reduce:
             self.tasker.status["store_count"] = tasker.status["store_count"]
 
+    def is_load_output(self):
+        # the rows of a page would be stored before the next page of the same table is read
+        output = self.config["output"].split("::")[0]
+
+        def is_load(config):
+            if isinstance(config, str):
+                return config.split("::")[0] in (output, "&" + output)
+            if isinstance(config, dict):
+                return any([is_load(value) for value in config.values()])
+            return isinstance(config, (list, tuple)) and any([is_load(value) for value in config])
+        return any([is_load(self.config.get(key)) for key in ("input", "schema", "intercept", "predicate")])
+
     def compile_tasker(self, arguments, tasker):
         tasker.load()
         compile_arguments = dict(**self.ENV_ARGUMENTS)
-- 
2.43.0


From 2d60d92a8e6638da3e9ec35ccd14df44f1b7ec77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:56 +0000
Subject: [PATCH 78/93] fix: conditions on a derived table no longer limited
 the rows UDI and DI replace

---
 syncanysql/compiler.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 74e1775..74a6e7f 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -1017,13 +1017,13 @@ class Compiler(object):
             return None, None
 
         def build_query_condition(condition_column, condition_exp, condition_calculater):
-            if primary_table["db"] == "--" and "select_columns" in primary_table and condition_exp in ("!=", "<", "<="):
-                # memory tables take NULL for the smallest value
-                return expression
             condition_querys = config["querys"].setdefault(condition_column["typing_name"], {})
             if not self.can_add_query_condition(condition_querys, condition_exp):
                 return expression
             condition_querys[condition_exp] = condition_calculater
+            if primary_table["db"] == "--" and "select_columns" in primary_table and condition_exp in ("!=", "<", "<="):
+                # memory tables take NULL for the smallest value, the rows loaded are checked again
+                return expression
             setattr(expression, "syncany_valuer", ["#const", 1])
             return None
 
-- 
2.43.0


From fb23adeb5233ebb23314b3d91fadf6f381277fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:26 +0000
Subject: [PATCH 79/93] fix: a database whose quoted name is no identifier was
 unknown

---
 syncanysql/compiler.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 74a6e7f..8460664 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -2720,6 +2720,7 @@ class Compiler(object):
 
     def parse_table(self, expression, config, arguments):
         db_name = expression.args["db"].name if expression.args.get("db") else None
+        db_name = self.mapping.get(db_name, db_name)
         if isinstance(expression.args["this"], sqlglot_expressions.Dot):
             def parse(expression):
                 return (parse(expression.args["this"]) if isinstance(expression.args["this"],
@@ -2747,7 +2748,8 @@ class Compiler(object):
             table_name = origin_name
             typing_options = []
         if expression.args.get("catalog"):
-            db_name, table_name = expression.args["catalog"].name, ((db_name + ".") if db_name else "") + table_name
+            catalog_name = expression.args["catalog"].name
+            db_name, table_name = self.mapping.get(catalog_name, catalog_name), ((db_name + ".") if db_name else "") + table_name
         table_alias = expression.args["alias"].args["this"].name if expression.args.get("alias") else None
         use_output_type = arguments.get("@use_output_type")
         if use_output_type and isinstance(use_output_type, str):
-- 
2.43.0


From 61c30b0832862fff4e09cfdacc81e32dc8953a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:52 +0000
Subject: [PATCH 80/93] fix: the configured date formats and encoding did not
 apply to .json, .csv and file tables

---
 syncanysql/compiler.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 8460664..7347198 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -2772,7 +2772,7 @@ class Compiler(object):
                     database = d
                     break
             if not database:
-                database = {"name": "stdio-" + format_type, "driver": "textline", "format": format_type}
+                database = self.output_options({"name": "stdio-" + format_type, "driver": "textline", "format": format_type})
                 config["databases"].append(database)
             db_name, table_name = database["name"], "&1"
         elif not db_name:
@@ -2809,6 +2809,8 @@ class Compiler(object):
                     while path_db_name in [d["name"] for d in config["databases"]]:
                         path_db_name = path_db_name + "_"
                     database = {"name": path_db_name, "driver": db_driver, "path": path}
+                    if db_driver in ("textline", "json", "csv"):
+                        self.output_options(database)
                     config["databases"].append(database)
                 if db_params:
                     database.update(db_params)
@@ -2829,6 +2831,13 @@ class Compiler(object):
             "typing_options": typing_options,
         }
         
+    def output_options(self, database):
+        config = self.config.get()
+        for key in ("encoding", "datetime_format", "date_format", "time_format"):
+            if config.get(key):
+                database[key] = config[key]
+        return database
+
     def parse_column(self, expression, config, arguments):
         dot_keys, convert_typing_filter = [], None
         if isinstance(expression, sqlglot_expressions.Dot):
-- 
2.43.0


From 08ce498ffe861a190c0b4b8088cc23f6304fdded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:24 +0000
Subject: [PATCH 81/93] fix: NOT over AND and OR was true where they are NULL

---
 syncanysql/compiler.py | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 7347198..d8ad2ae 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -1929,6 +1929,9 @@ class Compiler(object):
                     self.compile_calculate(expression.args["this"].args["expression"], config, arguments, primary_table,
                                            column_join_tables, join_index)
                 ]
+            negated_expression = self.negate_connector(expression)
+            if negated_expression is not None:
+                return self.compile_calculate(negated_expression, config, arguments, primary_table, column_join_tables, join_index)
             return ["@mysql::not", self.compile_calculate(expression.args["this"], config, arguments, primary_table,
                                                           column_join_tables, join_index)]
         elif isinstance(expression, sqlglot_expressions.Parameter):
@@ -1990,6 +1993,18 @@ class Compiler(object):
         else:
             raise SyncanySqlCompileException('unknown calculate expression, related sql "%s"' % self.to_sql(expression))
 
+    def negate_connector(self, expression):
+        operand, negated = expression, False
+        while isinstance(operand, sqlglot_expressions.Not):
+            operand, negated = operand.args["this"].unnest(), not negated
+        if not isinstance(operand, (sqlglot_expressions.And, sqlglot_expressions.Or)):
+            return None
+        if not negated:
+            return operand
+        negated_cls = sqlglot_expressions.Or if isinstance(operand, sqlglot_expressions.And) else sqlglot_expressions.And
+        return negated_cls(this=sqlglot_expressions.Not(this=operand.args["this"].copy()),
+                           expression=sqlglot_expressions.Not(this=operand.args["expression"].copy()))
+
     def compile_having_condition(self, expression, config, arguments, primary_table):
         if isinstance(expression, sqlglot_expressions.And):
             return [
@@ -2005,6 +2020,10 @@ class Compiler(object):
                 ["#const", 1],
                 self.compile_having_condition(expression.args.get("expression"), config, arguments, primary_table)
             ]
+        if isinstance(expression, sqlglot_expressions.Not):
+            negated_expression = self.negate_connector(expression)
+            if negated_expression is not None:
+                return self.compile_having_condition(negated_expression, config, arguments, primary_table)
 
         def parse(expression):
             left_column = None
-- 
2.43.0


From 5953e07cc694c2764aa72cef651dc5c9b1302ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:29 +0000
Subject: [PATCH 82/93] fix: text files of one directory in one statement
 shared one format

---
 syncanysql/compiler.py | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index d8ad2ae..5cbeb3b 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -2817,26 +2817,24 @@ class Compiler(object):
                 path_db_name = "dir__" + "".join([c if c.isalpha() or c.isdigit() else '_' for c in path])
                 if db_params:
                     path_db_name = path_db_name + "_" + str(uuid.uuid1().int)
-                database = None
                 if "databases" not in config:
                     config["databases"] = []
-                for d in config["databases"]:
-                    if d.get("driver") == db_driver and d.get("path") == path and not db_params:
-                        database = d
-                        break
-                if not database:
-                    while path_db_name in [d["name"] for d in config["databases"]]:
-                        path_db_name = path_db_name + "_"
-                    database = {"name": path_db_name, "driver": db_driver, "path": path}
-                    if db_driver in ("textline", "json", "csv"):
-                        self.output_options(database)
-                    config["databases"].append(database)
-                if db_params:
-                    database.update(db_params)
+                database = {"name": path_db_name, "driver": db_driver, "path": path}
+                if db_driver in ("textline", "json", "csv"):
+                    self.output_options(database)
+                database.update(db_params)
                 if db_driver == "textline":
                     formats = [f for f in ("csv", "json", "richtable", "print") if f in typing_options]
                     if formats:
                         database["format"] = formats[0]
+                for d in config["databases"]:
+                    if dict(d, name=database["name"]) == database:
+                        database = d
+                        break
+                else:
+                    while database["name"] in [d["name"] for d in config["databases"]]:
+                        database["name"] = database["name"] + "_"
+                    config["databases"].append(database)
                 db_name = database["name"]
             else:
                 db_name = "--"
-- 
2.43.0


From d07a88a9ab846401652867f1f26fc27e904bf5fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:29 +0000
Subject: [PATCH 83/93] fix: GROUP_CONCAT of times added their zone offset

---
 syncanysql/calculaters/aggregate_calculater.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/syncanysql/calculaters/aggregate_calculater.py b/syncanysql/calculaters/aggregate_calculater.py
index db953cb..8c5b197 100644
--- a/syncanysql/calculaters/aggregate_calculater.py
+++ b/syncanysql/calculaters/aggregate_calculater.py
@@ -6,7 +6,7 @@ import datetime
 import json
 from syncany.calculaters.calculater import Calculater
 from syncany.filters import IntFilter, FloatFilter, ArrayFilter, StringFilter
-from ..utils import NumberDecimalTypes, ensure_number, ensure_int
+from ..utils import NumberDecimalTypes, ensure_number, ensure_int, ensure_str
 
 
 class AggregateKeyCalculater(Calculater):
@@ -223,12 +223,17 @@ class AggregateAvgCalculater(StateAggregateCalculater):
 
 
 class AggregateGroupConcatCalculater(StateAggregateCalculater):
+    def format_value(self, value):
+        if isinstance(value, (datetime.date, datetime.time)):
+            return ensure_str(value)
+        return str(value)
+
     def aggregate(self, state_value, data_value):
         if data_value is None:
             return state_value
         if state_value is None:
-            return [str(data_value)]
-        state_value.append(str(data_value))
+            return [self.format_value(data_value)]
+        state_value.append(self.format_value(data_value))
         return state_value
 
     def reduce(self, state_value, data_value):
-- 
2.43.0


From e47aa10a3f6a6043c26613e7a121f9f5a3736ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:11 +0000
Subject: [PATCH 84/93] fix: arithmetic, SUM and AVG over decimals and floats
 gave NULL or left values out

---
 .../calculaters/aggregate_calculater.py       | 24 ++++++++++++++++---
 .../calculaters/mysql_funcs/number_funcs.py   | 17 ++++++++-----
 syncanysql/utils.py                           |  9 +++++++
 3 files changed, 41 insertions(+), 9 deletions(-)

diff --git a/syncanysql/calculaters/aggregate_calculater.py b/syncanysql/calculaters/aggregate_calculater.py
index 8c5b197..c451737 100644
--- a/syncanysql/calculaters/aggregate_calculater.py
+++ b/syncanysql/calculaters/aggregate_calculater.py
@@ -6,7 +6,7 @@ import datetime
 import json
 from syncany.calculaters.calculater import Calculater
 from syncany.filters import IntFilter, FloatFilter, ArrayFilter, StringFilter
-from ..utils import NumberDecimalTypes, ensure_number, ensure_int, ensure_str
+from ..utils import NumberDecimalTypes, ensure_number, ensure_numbers, ensure_int, ensure_str
 
 
 class AggregateKeyCalculater(Calculater):
@@ -135,7 +135,19 @@ class AggregateSumCalculater(AggregateCalculater):
                 if isinstance(data_value, NumberDecimalTypes):
                     return data_value
                 return ensure_number(data_value)
+            try:
+                state_value, data_value = ensure_numbers(state_value, data_value)
+                return state_value + data_value
+            except:
+                return state_value
+
+    def reduce(self, state_value, data_value):
+        if data_value is None:
             return state_value
+        if state_value is None:
+            return data_value
+        state_value, data_value = ensure_numbers(state_value, data_value)
+        return state_value + data_value
 
     def get_final_filter(self):
         return FloatFilter.default()
@@ -203,6 +215,12 @@ class AggregateAvgCalculater(StateAggregateCalculater):
                 if isinstance(data_value, NumberDecimalTypes):
                     return {"count_value": 1, "sum_value": data_value}
                 return {"count_value": 1, "sum_value": ensure_number(data_value)}
+            try:
+                sum_value, data_value = ensure_numbers(state_value["sum_value"], data_value)
+                state_value["sum_value"] = sum_value + data_value
+                state_value["count_value"] += 1
+            except:
+                pass
             return state_value
 
     def reduce(self, state_value, data_value):
@@ -210,8 +228,8 @@ class AggregateAvgCalculater(StateAggregateCalculater):
             return state_value
         if state_value is None:
             return data_value
-        return {"count_value": state_value["count_value"] + data_value["count_value"],
-                "sum_value": state_value["sum_value"] + data_value["sum_value"]}
+        sum_value, data_sum_value = ensure_numbers(state_value["sum_value"], data_value["sum_value"])
+        return {"count_value": state_value["count_value"] + data_value["count_value"], "sum_value": sum_value + data_sum_value}
 
     def final_value(self, state_value):
         if state_value is None:
diff --git a/syncanysql/calculaters/mysql_funcs/number_funcs.py b/syncanysql/calculaters/mysql_funcs/number_funcs.py
index 7a40605..9ca25a8 100644
--- a/syncanysql/calculaters/mysql_funcs/number_funcs.py
+++ b/syncanysql/calculaters/mysql_funcs/number_funcs.py
@@ -5,37 +5,42 @@
 import math
 import random
 from syncany.calculaters import typing_filter
-from ...utils import ensure_number, ensure_int
+from ...utils import ensure_number, ensure_numbers, ensure_int
 
 @typing_filter(float)
 def mysql_add(x, y):
     if x is None or y is None:
         return None
-    return ensure_number(x) + ensure_number(y)
+    x, y = ensure_numbers(x, y)
+    return x + y
 
 @typing_filter(float)
 def mysql_sub(x, y):
     if x is None or y is None:
         return None
-    return ensure_number(x) - ensure_number(y)
+    x, y = ensure_numbers(x, y)
+    return x - y
 
 @typing_filter(float)
 def mysql_mul(x, y):
     if x is None or y is None:
         return None
-    return ensure_number(x) * ensure_number(y)
+    x, y = ensure_numbers(x, y)
+    return x * y
 
 @typing_filter(float)
 def mysql_div(x, y):
     if x is None or y is None:
         return None
-    return ensure_number(x) / ensure_number(y)
+    x, y = ensure_numbers(x, y)
+    return x / y
 
 @typing_filter(float)
 def mysql_mod(x, y):
     if x is None or y is None:
         return None
-    return ensure_number(x) % ensure_number(y)
+    x, y = ensure_numbers(x, y)
+    return x % y
 
 @typing_filter(int)
 def mysql_bitwiseand(x, y):
diff --git a/syncanysql/utils.py b/syncanysql/utils.py
index 48b4f9e..6f9ec40 100644
--- a/syncanysql/utils.py
+++ b/syncanysql/utils.py
@@ -117,6 +117,15 @@ def ensure_number(x):
         return int(x.strftime("%H%M%S"))
     return ensure_int(x)
 
+def ensure_numbers(x, y):
+    # decimals and floats have no common operators
+    x, y = ensure_number(x), ensure_number(y)
+    if isinstance(x, Decimal) and isinstance(y, float):
+        return float(x), y
+    if isinstance(x, float) and isinstance(y, Decimal):
+        return x, float(y)
+    return x, y
+
 def ensure_str(x):
     if isinstance(x, str):
         return x
-- 
2.43.0


From ac2cbf3dd098cba87ee30f21aa634fc8a08164d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:54 +0000
Subject: [PATCH 85/93] fix: dates in conditions evaluated per row compared as
 false with texts, and raised with other dates and numbers

---
 .../calculaters/mysql_funcs/logical_funcs.py  | 14 ++++++++++++-
 syncanysql/utils.py                           | 21 +++++++++++++++++++
 2 files changed, 34 insertions(+), 1 deletion(-)

diff --git a/syncanysql/calculaters/mysql_funcs/logical_funcs.py b/syncanysql/calculaters/mysql_funcs/logical_funcs.py
index 0343500..6b08529 100644
--- a/syncanysql/calculaters/mysql_funcs/logical_funcs.py
+++ b/syncanysql/calculaters/mysql_funcs/logical_funcs.py
@@ -4,7 +4,7 @@
 
 from collections.abc import Iterable
 from syncany.calculaters import typing_filter
-from ...utils import NumberDecimalTypes, ensure_number, ensure_str
+from ...utils import NumberDecimalTypes, TimeTypes, ensure_number, ensure_str, ensure_times
 
 @typing_filter(int)
 def mysql_eq(a, b):
@@ -14,6 +14,8 @@ def mysql_eq(a, b):
         return 1 if a == b else 0
     if a is None or b is None:
         return None
+    if isinstance(a, TimeTypes) or isinstance(b, TimeTypes):
+        a, b = ensure_times(a, b)
     if isinstance(a, NumberDecimalTypes):
         if isinstance(b, NumberDecimalTypes):
             return 1 if a == b else 0
@@ -42,6 +44,8 @@ def mysql_neq(a, b):
         return 1 if a != b else 0
     if a is None or b is None:
         return None
+    if isinstance(a, TimeTypes) or isinstance(b, TimeTypes):
+        a, b = ensure_times(a, b)
     if isinstance(a, NumberDecimalTypes):
         if isinstance(b, NumberDecimalTypes):
             return 1 if a != b else 0
@@ -73,6 +77,8 @@ def mysql_gt(a, b):
             pass
     if a is None or b is None:
         return None
+    if isinstance(a, TimeTypes) or isinstance(b, TimeTypes):
+        a, b = ensure_times(a, b)
     if isinstance(a, NumberDecimalTypes):
         if isinstance(b, NumberDecimalTypes):
             return 1 if a > b else 0
@@ -104,6 +110,8 @@ def mysql_gte(a, b):
             pass
     if a is None or b is None:
         return None
+    if isinstance(a, TimeTypes) or isinstance(b, TimeTypes):
+        a, b = ensure_times(a, b)
     if isinstance(a, NumberDecimalTypes):
         if isinstance(b, NumberDecimalTypes):
             return 1 if a >= b else 0
@@ -135,6 +143,8 @@ def mysql_lt(a, b):
             pass
     if a is None or b is None:
         return None
+    if isinstance(a, TimeTypes) or isinstance(b, TimeTypes):
+        a, b = ensure_times(a, b)
     if isinstance(a, NumberDecimalTypes):
         if isinstance(b, NumberDecimalTypes):
             return 1 if a < b else 0
@@ -166,6 +176,8 @@ def mysql_lte(a, b):
             pass
     if a is None or b is None:
         return None
+    if isinstance(a, TimeTypes) or isinstance(b, TimeTypes):
+        a, b = ensure_times(a, b)
     if isinstance(a, NumberDecimalTypes):
         if isinstance(b, NumberDecimalTypes):
             return 1 if a <= b else 0
diff --git a/syncanysql/utils.py b/syncanysql/utils.py
index 6f9ec40..2abdaaf 100644
--- a/syncanysql/utils.py
+++ b/syncanysql/utils.py
@@ -3,6 +3,7 @@
 # create by: snower
 
 from decimal import Decimal
+from syncany.utils import get_timezone, parse_datetime, parse_time
 import datetime
 import string
 
@@ -10,6 +11,7 @@ NumberTypes = (int, float)
 NumberDecimalTypes = (int, float, Decimal)
 NumberStringTypes = (int, float, str)
 SequenceTypes = (tuple, list)
+TimeTypes = (datetime.date, datetime.time)
 
 
 def parse_value(value):
@@ -126,6 +128,25 @@ def ensure_numbers(x, y):
         return x, float(y)
     return x, y
 
+def ensure_times(x, y):
+    # dates and times compare with texts, numbers and each other by the time they denote
+    def parse(value, other):
+        tz = getattr(other, "tzinfo", None) or get_timezone()
+        if isinstance(value, str):
+            return parse_time(value, None, tz) if isinstance(other, datetime.time) else parse_datetime(value, None, tz)
+        if isinstance(value, datetime.datetime):
+            return value if value.tzinfo else value.replace(tzinfo=tz)
+        if isinstance(value, datetime.date):
+            return datetime.datetime(value.year, value.month, value.day, tzinfo=tz)
+        return value
+
+    try:
+        if isinstance(x, NumberDecimalTypes) or isinstance(y, NumberDecimalTypes):
+            return ensure_number(x), ensure_number(y)
+        return parse(x, y), parse(y, x)
+    except Exception:
+        return x, y
+
 def ensure_str(x):
     if isinstance(x, str):
         return x
-- 
2.43.0


From 7d4e712e17e43803353d208bec3ba04deb849003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:16:09 +0000
Subject: [PATCH 86/93] fix: rows of select * from a memory table, of
 push_memory_datas and get_memory_datas were shared, an update changed both
 tables

---
 syncanysql/__init__.py  |  4 ++--
 syncanysql/databases.py | 15 +++++++++++++++
 2 files changed, 17 insertions(+), 2 deletions(-)
 create mode 100644 syncanysql/databases.py

diff --git a/syncanysql/__init__.py b/syncanysql/__init__.py
index 1445ce3..0a0dfd1 100644
--- a/syncanysql/__init__.py
+++ b/syncanysql/__init__.py
@@ -21,7 +21,7 @@ from .version import version, version_info
 from .parser import SqlParser, SqlSegment, FileParser
 from .config import GlobalConfig
 from .executor import Executor
-from . import loaders, valuers
+from . import databases, loaders, valuers
 from .calculaters import GenerateCalculater, AggregateCalculater, StateAggregateCalculater, \
     WindowAggregateCalculater, WindowStateAggregateCalculater
 
@@ -178,7 +178,7 @@ class ScriptEngine(object):
             return []
         database = self.get_database("--")
         query = database.query("--." + name, ["id"])
-        return query.commit()
+        return [data.copy() if isinstance(data, dict) else data for data in query.commit()]
 
     def pop_memory_datas(self, name):
         if self.manager is None:
diff --git a/syncanysql/databases.py b/syncanysql/databases.py
new file mode 100644
index 0000000..0fef021
--- /dev/null
+++ b/syncanysql/databases.py
@@ -0,0 +1,15 @@
+# -*- coding: utf-8 -*-
+# create by: snower
+
+from syncany.database import register_database
+from syncany.database.memory import MemoryDB
+
+
+@register_database("memory")
+class QueryMemoryDB(MemoryDB):
+    # The rows of `select *` from another memory table are the rows that table holds, and those of push_memory_datas
+    # the caller's, an update of this table must not change them.
+    def insert(self, name, primary_keys=None, fields=(), datas=None):
+        if isinstance(datas, list):
+            datas = [data.copy() if isinstance(data, dict) else data for data in datas]
+        return super(QueryMemoryDB, self).insert(name, primary_keys, fields, datas)
-- 
2.43.0


From 19621c229997e22b6b850813093135bf9ee5173e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:18:55 +0000
Subject: [PATCH 87/93] fix: U, UI and UDI writes of select * to memory tables
 and json files with existing keys raised KeyError

---
 syncanysql/taskers/query.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/syncanysql/taskers/query.py b/syncanysql/taskers/query.py
index 1fab475..9051362 100644
--- a/syncanysql/taskers/query.py
+++ b/syncanysql/taskers/query.py
@@ -11,6 +11,7 @@ from collections import defaultdict
 from syncany.logger import get_logger
 from syncany.taskers.core import CoreTasker
 from syncany.hook import Hooker
+from syncany.outputers import DBUpdateOutputer, DBUpdateInsertOutputer, DBUpdateDeleteInsertOutputer
 from syncany.taskers.tasker import _thread_local
 from syncany.main import TaskerYieldNext, warp_database_logging
 
@@ -410,6 +411,9 @@ class QueryTasker(object):
                 compile_arguments["@insert_batch"] = 0
 
         tasker.compile(compile_arguments)
+        if tasker.schema == ".*" and isinstance(tasker.outputer, (DBUpdateOutputer, DBUpdateInsertOutputer, DBUpdateDeleteInsertOutputer)):
+            # compares rows by the columns the loader finds, a tasker without hookers may pass rows by it
+            tasker.add_hooker(Hooker())
         if "@verbose" in compile_arguments and compile_arguments["@verbose"]:
             warp_database_logging(tasker)
 
-- 
2.43.0


From d3895923c19f13c7c0b213a0d747f70dc36429fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:25:22 +0000
Subject: [PATCH 88/93] fix: conditions on nested columns of memory tables,
 subqueries and json files, and on items of arrays, matched no rows

---
 syncanysql/compiler.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 5cbeb3b..34428e5 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -1018,7 +1018,8 @@ class Compiler(object):
 
         def build_query_condition(condition_column, condition_exp, condition_calculater):
             condition_querys = config["querys"].setdefault(condition_column["typing_name"], {})
-            if not self.can_add_query_condition(condition_querys, condition_exp):
+            if ("select_columns" in primary_table and self.is_nested_column(condition_column, config, primary_table)) \
+                    or not self.can_add_query_condition(condition_querys, condition_exp):
                 return expression
             condition_querys[condition_exp] = condition_calculater
             if primary_table["db"] == "--" and "select_columns" in primary_table and condition_exp in ("!=", "<", "<="):
@@ -1077,6 +1078,17 @@ class Compiler(object):
         else:
             return expression
 
+    def is_nested_column(self, column, config, table):
+        # memory tables and json files take the name of a nested column for the name of one key, and no storage knows .:0
+        if "." not in column["column_name"]:
+            return False
+        if ".:" in column["column_name"]:
+            return True
+        for database in self.config.get()["databases"] + (config.get("databases") or []):
+            if database["name"] == table["db"]:
+                return database.get("driver") in ("memory", "json")
+        return False
+
     def can_add_query_condition(self, condition_querys, condition_exp):
         # loaders keep one condition per column and operator and take == and in for alternatives
         if condition_exp in condition_querys:
@@ -2402,6 +2414,7 @@ class Compiler(object):
         def build_query_condition(condition_column, condition_exp, condition_calculater):
             condition_querys = join_table["querys"].setdefault(condition_column["typing_name"], {})
             if (join_table["db"] == "--" and condition_exp in ("!=", "<", "<=")) \
+                    or self.is_nested_column(condition_column, config, join_table) \
                     or not self.can_add_query_condition(condition_querys, condition_exp):
                 join_table["columns"].setdefault(condition_column["column_name"], condition_column)
                 join_table["having_expressions"].append(expression)
-- 
2.43.0


From e05f039d5f948ce15df3feee5deeaf11104dc6b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:49:24 +0000
Subject: [PATCH 89/93] fix: ORDER BY a result column was lost when HAVING used
 it in an expression and the table had no alias

---
 syncanysql/compiler.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 34428e5..fd7788d 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -613,7 +613,10 @@ class Compiler(object):
 
         having_expression = expression.args.get("having")
         if having_expression:
+            # having names the columns of the result, not the columns of the table
+            columns = dict(primary_table["columns"])
             having_condition = self.compile_having_condition(having_expression.args["this"], config, arguments, primary_table)
+            primary_table["columns"] = columns
             if having_condition:
                 config["intercept"] = having_condition
 
-- 
2.43.0


From ea3dec4f070fcd305bc6cdae2b2dee38c832d978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:17:35 +0000
Subject: [PATCH 90/93] fix: a cast to time gave a datetime

---
 syncanysql/compiler.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index fd7788d..15cde48 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -43,6 +43,9 @@ class CompilerDialect(sqlglot_dialects.Dialect):
         HEX_STRINGS = [("x'", "'"), ("X'", "'"), ("0x", "")]
 
     class Parser(sqlglot_parser.Parser):
+        # time is a type of its own, sqlglot takes it for a timestamp
+        TIMESTAMPS = sqlglot_parser.Parser.TIMESTAMPS - {sqlglot_parser.TokenType.TIME}
+
         def _parse_parameter(self):
             wrapped = self._match(sqlglot_parser.TokenType.L_BRACE)
             this = self._parse_var() or self._parse_primary()
@@ -2995,10 +2998,10 @@ class Compiler(object):
             typing_filter = "int"
         elif to_type == sqlglot_expressions.DataType.Type.DATE:
             typing_filter = "date"
-        elif to_type in sqlglot_expressions.DataType.TEMPORAL_TYPES:
-            typing_filter = "datetime"
         elif to_type == sqlglot_expressions.DataType.Type.TIME:
             typing_filter = "time"
+        elif to_type in sqlglot_expressions.DataType.TEMPORAL_TYPES:
+            typing_filter = "datetime"
         elif to_type in sqlglot_expressions.DataType.TEXT_TYPES:
             typing_filter = "str"
         elif to_type == sqlglot_expressions.DataType.Type.BOOLEAN:
-- 
2.43.0


From b70cbc3101199e22bc83c15fa1c45a2a68d2ef88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:22:53 +0000
Subject: [PATCH 91/93] fix: GROUP BY a converted or aggregated column grouped
 by the select alias of the same name

---
 syncanysql/compiler.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 15cde48..fa95e83 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -1409,8 +1409,12 @@ class Compiler(object):
         for group_expression in expression.args["expressions"]:
             if self.is_column(group_expression, config, arguments):
                 group_expression_column = self.parse_column(group_expression, config, arguments)
+                aggregate = config.get("aggregate") or DEAULT_AGGREGATE
                 if isinstance(config["schema"], dict) and not group_expression_column["table_name"] \
-                        and group_expression_column["column_name"] in config["schema"]:
+                        and not group_expression_column["typing_filters"] \
+                        and group_expression_column["column_name"] in config["schema"] \
+                        and group_expression_column["column_name"] not in aggregate["schema"] \
+                        and group_expression_column["column_name"] not in aggregate["window_schema"]:
                     group_column.append(config["schema"][group_expression_column["column_name"]])
                     continue
                 if not group_expression_column["table_name"] or group_expression_column["table_name"] == primary_table["table_name"]:
-- 
2.43.0


From 6ca4299420de9de3c98bddf6139c785995146c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:22:53 +0000
Subject: [PATCH 92/93] fix: a chain of three types in a column annotation gave
 garbage

---
 syncanysql/compiler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index fa95e83..0bc835d 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -2215,7 +2215,7 @@ class Compiler(object):
                 child_filter_column = ":$.*|" + typing_filters[0]
                 if len(typing_filters) == 1:
                     return child_filter_column
-                return [typing_filter_column, compile_column_filter(typing_filters[1:])]
+                return [child_filter_column, compile_column_filter(typing_filters[1:])]
             return [typing_filter_column, compile_column_filter(column["typing_filters"][1:])]
         return ("$" * scope_depth) + "." + column["column_name"]
     
-- 
2.43.0


From 1b08fa791f7f2575f1a8fd59b0c05906c1f5f3bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:22:53 +0000
Subject: [PATCH 93/93] fix: the cast of a column with a type annotation was
 applied before the annotation

---
 syncanysql/compiler.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 0bc835d..9e5471d 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -2900,7 +2900,7 @@ class Compiler(object):
                 convert_typing_filter = self.TYPE_FILTERS[calculater_name[8:]]
                 expression = expression.args["expressions"][0]
 
-        typing_filters = [convert_typing_filter] if convert_typing_filter else []
+        typing_filters = []
         db_name = expression.args["db"].name if expression.args.get("db") else None
         table_name = expression.args["table"].name if expression.args.get("table") else None
         column_name = expression.args["this"].name
@@ -2925,6 +2925,9 @@ class Compiler(object):
         except ValueError:
             column_name = origin_name
             typing_name = column_name
+        if convert_typing_filter:
+            # converts what the type annotation gives
+            typing_filters.append(convert_typing_filter)
         try:
             start_index, end_index = origin_name.index("<"), origin_name.rindex(">")
             typing_options = origin_name[start_index+1: end_index].split(",")
-- 
2.43.0

