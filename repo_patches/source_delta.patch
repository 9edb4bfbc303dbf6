From fb909360d74d41fc1a02b3327383872bb73f3cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:53 +0000
Subject: [PATCH 01/14] fix: traced run of a pipeline without stages panicked
 in text()

normalize_with_positions(..).text() unwrapped the last record, so it panicked
when there was none; normalize() takes that path when debug logging is enabled,
so 'chanoma -d TEXT' without a configuration crashed. The text of a run without
stages is the input.
---
 src/chanoma.rs  |  3 ++-
 src/modifier.rs | 11 +++++++++--
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/chanoma.rs b/src/chanoma.rs
index e0d7ddb..fdd98e3 100644
--- a/src/chanoma.rs
+++ b/src/chanoma.rs
@@ -139,6 +139,7 @@ impl Chanoma {
     /// assert_eq!(chanoma.normalize_with_positions("ﾁｬﾉﾏ").text(), "チャノマ");
     /// ```
     pub fn normalize_with_positions(&self, text: &str) -> ModifiedRecords {
+        let input = text.to_string();
         let mut v = Vec::new();
         let mut text = text.to_string();
         for m in self.modifiers.iter() {
@@ -149,7 +150,7 @@ impl Chanoma {
             v.push(result.clone());
             text = result.text;
         }
-        ModifiedRecords::new(v)
+        ModifiedRecords::with_input(input, v)
     }
 
     /// 一文字から一文字の置換テーブルを定義した [Table] 構造体を使用するように [Chanoma] 構造体を初期化します。
diff --git a/src/modifier.rs b/src/modifier.rs
index 4ffb993..e545826 100644
--- a/src/modifier.rs
+++ b/src/modifier.rs
@@ -48,6 +48,7 @@ pub trait ModifierFromYamlValue {
 /// 実行された正規化処理の途中経過を保存する構造体です。
 #[derive(Debug)]
 pub struct ModifiedRecords {
+    input: String,
     records: Vec<ModifiedRecord>,
 }
 
@@ -60,7 +61,13 @@ impl ModifiedRecords {
     // let modified = ModifiedRecords::new(vec![]);
     // ```
     pub fn new(records: Vec<ModifiedRecord>) -> Self {
-        Self { records }
+        Self::with_input(String::new(), records)
+    }
+
+    // 正規化前の文字列を指定して [ModifiedRecords] 構造体を初期化します。
+    // 途中経過が一つもない場合は、正規化前の文字列が最終結果になります。
+    pub fn with_input(input: String, records: Vec<ModifiedRecord>) -> Self {
+        Self { input, records }
     }
 
     // [ModifiedResult] 構造体から最終結果の文字列を取得します。
@@ -72,7 +79,7 @@ impl ModifiedRecords {
     // assert_eq!(modified.text(), "");
     // ```
     pub fn text(&self) -> &str {
-        &self.records.last().unwrap().text
+        self.records.last().map_or(&self.input, |x| &x.text)
     }
 
     // [ModifiedRecords] 構造体からすべての途中経過を取得します。
-- 
2.43.0


From ffd18ea1ce061e4efe343733b4294aee7d4a9ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:05 +0000
Subject: [PATCH 02/14] fix: offsets of conversion edits were swapped and in
 random order

Byte and character offsets were exchanged (the lengths and the other stages use
index for bytes and utf8_index for characters), and the edits came in hash map
order.
---
 src/modifier/character_converter.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/modifier/character_converter.rs b/src/modifier/character_converter.rs
index 5c2c687..3a73737 100644
--- a/src/modifier/character_converter.rs
+++ b/src/modifier/character_converter.rs
@@ -82,8 +82,8 @@ impl Modifier for CharacterConverter {
                     positions.push(Position::new(
                         c.to_string(),
                         to.to_string(),
-                        *c_index,
                         char_pos.utf8_indices[i],
+                        *c_index,
                         char_pos.length,
                         CharPos::UTF8_LEN,
                     ));
@@ -91,6 +91,9 @@ impl Modifier for CharacterConverter {
             }
         }
 
+        // HashMap の走査順は不定なので、出現順に並べ替える
+        positions.sort();
+
         ModifiedRecord::new(
             ModifierKind::CharacterConverter(self.clone()),
             refs.into_iter().collect::<String>(),
-- 
2.43.0


From 243e357bfe90da7d8f6eb9193adae0099077779b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:23 +0000
Subject: [PATCH 03/14] fix: offsets of repetition edits did not point at the
 repeated characters

index was an offset into the output, utf8_index the end of the run, and for a
run at the end of the text a byte length minus a number of characters.
---
 src/modifier/consecutive_character_reducer.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/modifier/consecutive_character_reducer.rs b/src/modifier/consecutive_character_reducer.rs
index 0a07671..395c003 100644
--- a/src/modifier/consecutive_character_reducer.rs
+++ b/src/modifier/consecutive_character_reducer.rs
@@ -40,7 +40,7 @@ impl Modifier for ConsecutiveCharacterReducer {
         let mut text = String::new(); // 返却する文字列用のバッファ
         let mut positions = Vec::new(); // 変更された位置情報
         let mut buffer = [0u8; 4]; // char型から&strに変換する際に.to_string()でString型を経由するとメモリの動的確保によるオーバーヘッドがかかるので、直接&strに変換するためのバッファ
-        for (i, ch) in input.chars().enumerate() {
+        for (i, (index, ch)) in input.char_indices().enumerate() {
             if self.c == ch {
                 if counter > 0 {
                     counter += 1;
@@ -52,9 +52,9 @@ impl Modifier for ConsecutiveCharacterReducer {
                 positions.push(Position {
                     from: self.c.to_string().repeat(counter),
                     to: self.c.to_string(),
-                    index: text.len(),
+                    index: index - c_len * counter,
                     length: c_len * counter,
-                    utf8_index: i,
+                    utf8_index: i - counter,
                     utf8_length: counter,
                 });
                 counter = 0;
@@ -66,9 +66,9 @@ impl Modifier for ConsecutiveCharacterReducer {
             positions.push(Position {
                 from: self.c.to_string().repeat(counter),
                 to: self.c.to_string(),
-                index: text.len(),
+                index: input.len() - c_len * counter,
                 length: c_len * counter,
-                utf8_index: input.len() - counter,
+                utf8_index: input.chars().count() - counter,
                 utf8_length: counter,
             });
         }
-- 
2.43.0


From d1e9c45d22ac471261a93ddd2417573d99a26b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:51 +0000
Subject: [PATCH 04/14] fix: YAML items as a list of from/to pairs panicked, as
 did malformed items

The README and examples/file/table.yaml show items as a list of from/to pairs;
loading it panicked because only a mapping was expected. Values of the wrong
type are now errors.
---
 src/file.rs | 30 +++++++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/src/file.rs b/src/file.rs
index 85c3883..225b9c8 100644
--- a/src/file.rs
+++ b/src/file.rs
@@ -4,7 +4,7 @@ use super::corr::{Corr, Correspondence, Item, Synthesized};
 use super::modifier_kind::ModifierKind;
 use super::table::{Origin, Table};
 use crate::error::Error;
-use serde::Serialize;
+use serde::{de::Error as _, Serialize};
 use std::collections::BTreeMap;
 use std::fs::File;
 use std::io::Write;
@@ -51,6 +51,18 @@ pub fn to_csv_writer<T: Corr, W: Write>(corr: &Correspondence<T>, writer: W) ->
     wtr
 }
 
+fn yaml_str(value: &serde_yaml::Value) -> Result<&str, serde_yaml::Error> {
+    value
+        .as_str()
+        .ok_or_else(|| serde_yaml::Error::custom(format!("expected a string: {:?}", value)))
+}
+
+fn yaml_mapping(value: &serde_yaml::Value) -> Result<&serde_yaml::Mapping, serde_yaml::Error> {
+    value
+        .as_mapping()
+        .ok_or_else(|| serde_yaml::Error::custom(format!("expected a mapping: {:?}", value)))
+}
+
 /// 設定ファイルの YAML ファイルのパスから置換テーブルを生成する関数です。
 ///
 /// ```
@@ -62,14 +74,22 @@ pub fn table_from_yaml_path(path: impl AsRef<Path>) -> Result<Table, Error> {
     let path = path.as_ref();
     let data: serde_yaml::Value = serde_yaml::from_reader(File::open(path)?)?;
     let mut items = Vec::new();
-    if let Some(map) = data.get("items") {
-        for (key, value) in map.as_mapping().unwrap().iter() {
+    if let Some(seq) = data.get("items").and_then(|v| v.as_sequence()) {
+        // - from: "a"
+        //   to: "A"
+        for pair in seq.iter() {
+            let from = pair.get("from").unwrap_or(&serde_yaml::Value::Null);
+            let to = pair.get("to").unwrap_or(&serde_yaml::Value::Null);
+            items.push(Item::new(yaml_str(from)?, yaml_str(to)?));
+        }
+    } else if let Some(map) = data.get("items") {
+        for (key, value) in yaml_mapping(map)?.iter() {
             if value.is_sequence() {
                 for v in value.as_sequence().unwrap().iter() {
-                    items.push(Item::new(v.as_str().unwrap(), key.as_str().unwrap()));
+                    items.push(Item::new(yaml_str(v)?, yaml_str(key)?));
                 }
             } else {
-                items.push(Item::new(value.as_str().unwrap(), key.as_str().unwrap()));
+                items.push(Item::new(yaml_str(value)?, yaml_str(key)?));
             }
         }
     }
-- 
2.43.0


From 2bc473188e250f7b2001c73511d67ff2cbdd79e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:11 +0000
Subject: [PATCH 05/14] fix: malformed stage parameters in a YAML configuration
 panicked

A value of the wrong type or an empty string where a character is expected is
now an error like every other mistake in a configuration file.
---
 src/file.rs                                   | 13 ++++++++++---
 src/modifier/character_converter.rs           | 13 ++++++-------
 src/modifier/character_eliminator.rs          |  7 ++++---
 src/modifier/consecutive_character_reducer.rs |  8 ++++++--
 src/modifier/ligature_translator.rs           | 13 ++++++-------
 src/modifier_kind.rs                          |  7 ++++---
 6 files changed, 36 insertions(+), 25 deletions(-)

diff --git a/src/file.rs b/src/file.rs
index 225b9c8..a5a2d0d 100644
--- a/src/file.rs
+++ b/src/file.rs
@@ -51,13 +51,20 @@ pub fn to_csv_writer<T: Corr, W: Write>(corr: &Correspondence<T>, writer: W) ->
     wtr
 }
 
-fn yaml_str(value: &serde_yaml::Value) -> Result<&str, serde_yaml::Error> {
+pub(crate) fn yaml_str(value: &serde_yaml::Value) -> Result<&str, serde_yaml::Error> {
     value
         .as_str()
         .ok_or_else(|| serde_yaml::Error::custom(format!("expected a string: {:?}", value)))
 }
 
-fn yaml_mapping(value: &serde_yaml::Value) -> Result<&serde_yaml::Mapping, serde_yaml::Error> {
+pub(crate) fn yaml_char(value: &serde_yaml::Value) -> Result<char, serde_yaml::Error> {
+    yaml_str(value)?
+        .chars()
+        .next()
+        .ok_or_else(|| serde_yaml::Error::custom("expected a character"))
+}
+
+pub(crate) fn yaml_mapping(value: &serde_yaml::Value) -> Result<&serde_yaml::Mapping, serde_yaml::Error> {
     value
         .as_mapping()
         .ok_or_else(|| serde_yaml::Error::custom(format!("expected a mapping: {:?}", value)))
@@ -111,7 +118,7 @@ pub fn modifiers_from_yaml_path(path: impl AsRef<Path>) -> Result<Vec<ModifierKi
     let data: serde_yaml::Value = serde_yaml::from_reader(File::open(path)?)?;
     let mut modifiers = Vec::new();
     if let Some(map) = data.get("modifiers") {
-        for (key, value) in map.as_mapping().unwrap().iter() {
+        for (key, value) in yaml_mapping(map)?.iter() {
             modifiers.push(ModifierKind::from_yaml_key_value(key, value)?);
         }
     }
diff --git a/src/modifier/character_converter.rs b/src/modifier/character_converter.rs
index 3a73737..a8c15fc 100644
--- a/src/modifier/character_converter.rs
+++ b/src/modifier/character_converter.rs
@@ -1,5 +1,6 @@
 use super::{ModifiedRecord, Modifier};
 use crate::error::Error;
+use crate::file::{yaml_char, yaml_mapping};
 use crate::modifier::ModifierFromYamlValue;
 use crate::modifier_kind::ModifierKind;
 use crate::position::Position;
@@ -104,16 +105,14 @@ impl Modifier for CharacterConverter {
 
 impl ModifierFromYamlValue for CharacterConverter {
     fn from_yaml_value(value: &serde_yaml::Value) -> Result<Self, Error> {
-        let map = value
-            .as_mapping()
-            .unwrap()
+        let map = yaml_mapping(value)?
             .iter()
             .map(|(key, value)| {
-                let k = key.as_str().unwrap().chars().next().unwrap();
-                let v = value.as_str().unwrap().chars().next().unwrap();
-                (k, v)
+                let k = yaml_char(key)?;
+                let v = yaml_char(value)?;
+                Ok((k, v))
             })
-            .collect::<HashMap<char, char>>();
+            .collect::<Result<HashMap<char, char>, Error>>()?;
         Ok(Self::from_map(map))
     }
 }
diff --git a/src/modifier/character_eliminator.rs b/src/modifier/character_eliminator.rs
index 9307a40..b038a79 100644
--- a/src/modifier/character_eliminator.rs
+++ b/src/modifier/character_eliminator.rs
@@ -1,5 +1,6 @@
 use super::{ModifiedRecord, Modifier};
 use crate::error::Error;
+use crate::file::yaml_char;
 use crate::modifier::ModifierFromYamlValue;
 use crate::modifier_kind::ModifierKind;
 use crate::position::Position;
@@ -39,10 +40,10 @@ impl ModifierFromYamlValue for CharacterEliminator {
     fn from_yaml_value(value: &serde_yaml::Value) -> Result<Self, Error> {
         let map = value
             .as_sequence()
-            .unwrap()
+            .ok_or_else(|| Error::ModifierKindParseError("require a sequence.".to_string()))?
             .iter()
-            .map(|v| v.as_str().unwrap().chars().next().unwrap())
-            .collect::<Vec<char>>();
+            .map(yaml_char)
+            .collect::<Result<Vec<char>, _>>()?;
         Ok(Self::from_chars(map))
     }
 }
diff --git a/src/modifier/consecutive_character_reducer.rs b/src/modifier/consecutive_character_reducer.rs
index 395c003..2c5dbb4 100644
--- a/src/modifier/consecutive_character_reducer.rs
+++ b/src/modifier/consecutive_character_reducer.rs
@@ -2,6 +2,7 @@
 
 use super::{ModifiedRecord, Modifier};
 use crate::error::Error;
+use crate::file::yaml_str;
 use crate::modifier::ModifierFromYamlValue;
 use crate::modifier_kind::ModifierKind;
 use crate::position::Position;
@@ -82,14 +83,17 @@ impl Modifier for ConsecutiveCharacterReducer {
 
 impl ModifierFromYamlValue for ConsecutiveCharacterReducer {
     fn from_yaml_value(value: &serde_yaml::Value) -> Result<Self, Error> {
-        Self::from_str(value.as_str().unwrap())
+        Self::from_str(yaml_str(value)?)
     }
 }
 
 impl FromStr for ConsecutiveCharacterReducer {
     type Err = Error;
     fn from_str(s: &str) -> Result<Self, Self::Err> {
-        let c = s.chars().next().unwrap();
+        let c = s
+            .chars()
+            .next()
+            .ok_or_else(|| Error::ModifierKindParseError("require value.".to_string()))?;
         Ok(Self::new(c))
     }
 }
diff --git a/src/modifier/ligature_translator.rs b/src/modifier/ligature_translator.rs
index 2b33831..599d45d 100644
--- a/src/modifier/ligature_translator.rs
+++ b/src/modifier/ligature_translator.rs
@@ -1,5 +1,6 @@
 use super::{ModifiedRecord, Modifier};
 use crate::error::Error;
+use crate::file::{yaml_mapping, yaml_str};
 use crate::modifier::ModifierFromYamlValue;
 use crate::modifier_kind::ModifierKind;
 use crate::position::Position;
@@ -33,16 +34,14 @@ impl Modifier for LigatureTranslator {
 
 impl ModifierFromYamlValue for LigatureTranslator {
     fn from_yaml_value(value: &serde_yaml::Value) -> Result<Self, Error> {
-        let map = value
-            .as_mapping()
-            .unwrap()
+        let map = yaml_mapping(value)?
             .iter()
             .map(|(key, value)| {
-                let k = key.as_str().unwrap().to_string();
-                let v = value.as_str().unwrap().to_string();
-                (k, v)
+                let k = yaml_str(key)?.to_string();
+                let v = yaml_str(value)?.to_string();
+                Ok((k, v))
             })
-            .collect::<HashMap<String, String>>();
+            .collect::<Result<HashMap<String, String>, Error>>()?;
         Ok(Self::from_map(map))
     }
 }
diff --git a/src/modifier_kind.rs b/src/modifier_kind.rs
index 234bb84..7ba0b38 100644
--- a/src/modifier_kind.rs
+++ b/src/modifier_kind.rs
@@ -1,4 +1,5 @@
 use crate::error::Error;
+use crate::file::yaml_str;
 use crate::modifier::character_converter::CharacterConverter;
 use crate::modifier::character_eliminator::CharacterEliminator;
 use crate::modifier::consecutive_character_reducer::ConsecutiveCharacterReducer;
@@ -116,7 +117,7 @@ impl ModifierKind {
         key: &serde_yaml::Value,
         value: &serde_yaml::Value,
     ) -> Result<Self, Error> {
-        match key.as_str().unwrap() {
+        match yaml_str(key)? {
             "character_converter" => Ok(Self::CharacterConverter(
                 CharacterConverter::from_yaml_value(value)?,
             )),
@@ -134,9 +135,9 @@ impl ModifierKind {
             )),
             "trim" => Ok(Self::Trim(Trim::from_yaml_value(value)?)),
             "neologdn" => Ok(Self::Neologdn(Neologdn::from_yaml_value(value)?)),
-            _ => Err(Error::ModifierKindParseError(format!(
+            key => Err(Error::ModifierKindParseError(format!(
                 "specified key {} does not exists.",
-                key.as_str().unwrap()
+                key
             ))),
         }
     }
-- 
2.43.0


From 2e137135b692ff5ac0c7685297495205fe1293b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:13 +0000
Subject: [PATCH 06/14] fix: CHANOMARC with a .yml file, without extension or
 not UTF-8

A .yml file, which the README allows, was refused; a file without extension or
with one that is not UTF-8 panicked; a path that is not UTF-8 was ignored as if
CHANOMARC were not set.
---
 src/configuration.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/configuration.rs b/src/configuration.rs
index 4f1998c..5f16067 100644
--- a/src/configuration.rs
+++ b/src/configuration.rs
@@ -97,7 +97,7 @@ impl Configuration {
 
 /// 環境変数が指定されていたらパスを返す
 fn file_path_from_env(env_name: &str) -> Option<PathBuf> {
-    if let Ok(path) = env::var(env_name) {
+    if let Some(path) = env::var_os(env_name) {
         // Configuration::ENV_NAME
         return Some(PathBuf::from(path));
     }
@@ -109,8 +109,7 @@ fn valid_file_path(path: PathBuf) -> Result<Vec<PathBuf>, Error> {
     if !path.is_file() {
         return Err(crate::error::Error::RcFileLoadError(path));
     }
-    let extension = String::from(path.extension().unwrap().to_str().unwrap());
-    if FileExtension::iter().all(|ext| ext.to_string() != extension) {
+    if FileExtension::from_path(&path).is_err() {
         return Err(crate::error::Error::RcFileLoadError(path));
     }
     Ok(vec![path])
-- 
2.43.0


From f45aabab5ffd626586b35dc8acf2e0e7dc702f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:14 +0000
Subject: [PATCH 07/14] fix: chanomarc.yml and .chanomarc.yml were not found

The README lists .yml among the extensions of the configuration files that are
looked for.
---
 src/configuration.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/configuration.rs b/src/configuration.rs
index 5f16067..f6b2a65 100644
--- a/src/configuration.rs
+++ b/src/configuration.rs
@@ -60,7 +60,7 @@ impl Configuration {
 
         Ok(exists_file_paths(
             auto_load_dirs(),
-            auto_load_paths_from_dir,
+            auto_load_paths_from_dir_with_aliases,
         ))
     }
 
@@ -148,6 +148,21 @@ fn auto_load_paths_from_dir(dir: &PathBuf) -> Vec<PathBuf> {
         .collect()
 }
 
+/// 拡張子の別名 (.yaml に対する .yml) のパスも含めて生成する
+#[allow(clippy::ptr_arg)]
+fn auto_load_paths_from_dir_with_aliases(dir: &PathBuf) -> Vec<PathBuf> {
+    let mut paths = Vec::new();
+    for path in auto_load_paths_from_dir(dir) {
+        let yml = path.with_extension("yml");
+        let is_yaml = matches!(FileExtension::from_path(&path), Ok(FileExtension::Yaml));
+        paths.push(path);
+        if is_yaml {
+            paths.push(yml);
+        }
+    }
+    paths
+}
+
 /// 存在するパスに絞り込む
 fn exists_file_paths<F>(load_dirs: Vec<PathBuf>, expand: F) -> Vec<PathBuf>
 where
-- 
2.43.0


From f27e05ebbc50bcce321c73cb160fc5ff284a54b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:42 +0000
Subject: [PATCH 08/14] fix: a table entry with an empty side panicked

A CSV row with an empty column (a padding comma is enough) made every pipeline
using the table panic when it was created.
---
 src/modifier/character_converter.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/modifier/character_converter.rs b/src/modifier/character_converter.rs
index a8c15fc..932b497 100644
--- a/src/modifier/character_converter.rs
+++ b/src/modifier/character_converter.rs
@@ -159,10 +159,11 @@ impl CharacterConverter {
         let mut items_map = HashMap::new();
         for table in tables.iter() {
             for item in table.items().iter() {
-                items_map.insert(
-                    item.from.chars().next().unwrap(),
-                    item.to.chars().next().unwrap(),
-                );
+                // 空文字列は一文字として扱えないので無視する
+                if let (Some(from), Some(to)) = (item.from.chars().next(), item.to.chars().next())
+                {
+                    items_map.insert(from, to);
+                }
             }
         }
         Self { items_map }
-- 
2.43.0


From f71f2b30ce010679c40cc756f26555881d483742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:44 +0000
Subject: [PATCH 09/14] fix: overlapping ligatures gave different results from
 run to run

The rules were applied in the order of a hash map, which differs from instance
to instance.
---
 src/modifier/ligature_translator.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/modifier/ligature_translator.rs b/src/modifier/ligature_translator.rs
index 599d45d..a9610c5 100644
--- a/src/modifier/ligature_translator.rs
+++ b/src/modifier/ligature_translator.rs
@@ -16,7 +16,10 @@ pub struct LigatureTranslator {
 impl Modifier for LigatureTranslator {
     fn modify(&self, input: &str) -> String {
         let mut text = input.to_string();
-        for (from, to) in self.map.iter() {
+        // HashMap の走査順は不定なので、長い合字から順に置換する
+        let mut items = self.map.iter().collect::<Vec<_>>();
+        items.sort_by(|(a, _), (b, _)| b.len().cmp(&a.len()).then_with(|| a.cmp(b)));
+        for (from, to) in items {
             text = text.replace(from, to);
         }
         text
-- 
2.43.0


From d8f808885441b2c09ea0095ced799e2fc1458e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:46 +0000
Subject: [PATCH 10/14] fix: neologdn left consecutive long vowel marks
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

Deleting a tilde or a space between two of them brought them together after the
runs had been reduced: 'ー~ー' became 'ーー', and 'ー' when normalised again.
---
 src/modifier/neologdn.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/modifier/neologdn.rs b/src/modifier/neologdn.rs
index 3fcfdaf..bf95433 100644
--- a/src/modifier/neologdn.rs
+++ b/src/modifier/neologdn.rs
@@ -27,6 +27,7 @@ impl Modifier for Neologdn {
         let text = self.space_eliminater.modify(&text);
         let text = self.character_eliminator.modify(&text);
         let text = self.ligature_translator.modify(&text);
+        let text = self.consecutive.modify(&text);
         self.space_eliminater.modify(&text)
     }
 
@@ -38,9 +39,10 @@ impl Modifier for Neologdn {
             .character_eliminator
             .modify_with_positions(&result.text);
         let result = self.ligature_translator.modify_with_positions(&result.text);
+        let text = self.consecutive.modify(&result.text);
         ModifiedRecord::new(
             ModifierKind::Neologdn(self.clone()),
-            result.text,
+            text,
             result.positions,
         )
     }
-- 
2.43.0


From 3a8646ae50ff15cc1db56efaf0899792aee64f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:48 +0000
Subject: [PATCH 11/14] fix: neologdn left half-width voiced kana unjoined
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

neologdn makes 'ﾊﾝｶｸﾀﾞﾖ' into 'ハンカクダヨ'; here it became 'ハンカクタﾞヨ',
as the half-width marks were not converted.
---
 src/modifier/neologdn.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/modifier/neologdn.rs b/src/modifier/neologdn.rs
index bf95433..871ef4f 100644
--- a/src/modifier/neologdn.rs
+++ b/src/modifier/neologdn.rs
@@ -158,9 +158,14 @@ const HYPHENS: Correspondence<Unification> =
     )
     .corr();
 
+// 半角の濁点・半濁点
+const VOICED_MARK: Correspondence<Unification> = Unification::new(&["ﾞ"], "゛").corr();
+const SEMI_VOICED_MARK: Correspondence<Unification> = Unification::new(&["ﾟ"], "゜").corr();
+
 impl Neologdn {
     pub fn new() -> Self {
         let corr = ALL - &Punctuations::EQUAL_SIGN + &CHOONPUS + &HYPHENS;
+        let corr = corr + &VOICED_MARK + &SEMI_VOICED_MARK;
         let table = Table::from_corr(corr, Origin::New);
         let mut map = HashMap::new();
         for (f, t) in KANA_TEN.iter() {
-- 
2.43.0


From c2effb272d5901848cc6e286dc90fa94ad46cf9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:50 +0000
Subject: [PATCH 12/14] fix: wrong entries for U+339F and U+33A4 in the CJK
 compatibility set

U+339F expanded to mm instead of mm2; U+33A4 was missing, because its entry was
written with U+33A3, which so had two entries. The comments beside them were
right.
---
 src/characters_set/cjk_compatibilities.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/characters_set/cjk_compatibilities.rs b/src/characters_set/cjk_compatibilities.rs
index a192adf..9130aaa 100644
--- a/src/characters_set/cjk_compatibilities.rs
+++ b/src/characters_set/cjk_compatibilities.rs
@@ -461,12 +461,12 @@ pub const SQUARE_MU_M: Correspondence<Linear> = Linear::new("\u{339B}", "µm").c
 pub const SQUARE_MM: Correspondence<Linear> = Linear::new("\u{339C}", "mm").corr(); // U+339C  ㎜  SQUARE MM   mm
 pub const SQUARE_CM: Correspondence<Linear> = Linear::new("\u{339D}", "cm").corr(); // U+339D  ㎝  SQUARE CM   cm
 pub const SQUARE_KM: Correspondence<Linear> = Linear::new("\u{339E}", "km").corr(); // U+339E  ㎞  SQUARE KM   km
-pub const SQUARE_MM_SQUARED: Correspondence<Linear> = Linear::new("\u{339F}", "mm").corr(); // U+339F  ㎟  SQUARE MM SQUARED   mm2     平方ミリメートル
+pub const SQUARE_MM_SQUARED: Correspondence<Linear> = Linear::new("\u{339F}", "mm2").corr(); // U+339F  ㎟  SQUARE MM SQUARED   mm2     平方ミリメートル
 pub const SQUARE_CM_SQUARED: Correspondence<Linear> = Linear::new("\u{33A0}", "cm2").corr(); // U+33A0  ㎠  SQUARE CM SQUARED   cm2     平方センチメートル
 pub const SQUARE_M_SQUARED: Correspondence<Linear> = Linear::new("\u{33A1}", "m2").corr(); // U+33A1  ㎡  SQUARE M SQUARED    m2  平方メートル
 pub const SQUARE_KM_SQUARED: Correspondence<Linear> = Linear::new("\u{33A2}", "km2").corr(); // U+33A2  ㎢  SQUARE KM SQUARED   km2     平方キロメートル
 pub const SQUARE_MM_CUBED: Correspondence<Linear> = Linear::new("\u{33A3}", "mm3").corr(); // U+33A3  ㎣  SQUARE MM CUBED     mm3     立方ミリメートル
-pub const SQUARE_CM_CUBED: Correspondence<Linear> = Linear::new("\u{33A3}", "cm3").corr(); // U+33A4  ㎤  SQUARE CM CUBED     cm3     立方センチメートル
+pub const SQUARE_CM_CUBED: Correspondence<Linear> = Linear::new("\u{33A4}", "cm3").corr(); // U+33A4  ㎤  SQUARE CM CUBED     cm3     立方センチメートル
 pub const SQUARE_M_CUBED: Correspondence<Linear> = Linear::new("\u{33A5}", "m3").corr(); // U+33A5  ㎥  SQUARE M CUBED  m3  立方メートル
 pub const SQUARE_KM_CUBED: Correspondence<Linear> = Linear::new("\u{33A6}", "km3").corr(); // U+33A6  ㎦  SQUARE KM CUBED     km3     立方キロメートル
 pub const SQUARE_M_OVER_S: Correspondence<Linear> = Linear::new("\u{33A7}", "m/s").corr(); // U+33A7  ㎧  SQUARE M OVER S     m/s     メートル毎
-- 
2.43.0


From 6e2d63bc8997dbef549c5eec51e1a60a64bf943d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:51 +0000
Subject: [PATCH 13/14] fix: the CSV printed by output lost its first entry
 when loaded

The first row of a CSV table is its header, as in examples/file/table.csv, but
none was printed.
---
 src/bin/output.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/bin/output.rs b/src/bin/output.rs
index 4fa41ec..0325395 100644
--- a/src/bin/output.rs
+++ b/src/bin/output.rs
@@ -22,6 +22,8 @@ impl Format {
         match self {
             Self::Csv => {
                 let wtr = to_csv_writer(&table.corr(), vec![]);
+                // CSV ファイルの一行目はヘッダーとして読み飛ばされる
+                println!("from,to");
                 println!("{}", String::from_utf8(wtr.into_inner()?)?);
             }
             Self::Yaml => {
-- 
2.43.0


From 61ab5bb6d33daa69d593c24ff9f7cb12ea9fc6eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:55 +0000
Subject: [PATCH 14/14] fix: a YAML configuration replaced while it was loaded
 gave stages of one content and the table of the other

---
 src/configuration.rs | 20 +++++++++++++++-----
 src/file.rs          | 15 ++++++++++++++-
 2 files changed, 29 insertions(+), 6 deletions(-)

diff --git a/src/configuration.rs b/src/configuration.rs
index f6b2a65..b3ce518 100644
--- a/src/configuration.rs
+++ b/src/configuration.rs
@@ -68,18 +68,23 @@ impl Configuration {
         &self,
         path: &Path,
         ext: &FileExtension,
+        data: &serde_yaml::Value,
     ) -> Result<CharacterConverter, Error> {
         let table = match ext {
             FileExtension::Csv => table_from_csv_path(path)?,
-            FileExtension::Yaml => table_from_yaml_path(path)?,
+            FileExtension::Yaml => table_from_yaml_value(data, path)?,
             //FileExtension::Json => from_json_path(path),
         };
         Ok(CharacterConverter::from_tables(vec![table]))
     }
 
-    fn load_modifiers(&self, path: &Path, ext: &FileExtension) -> Result<Vec<ModifierKind>, Error> {
+    fn load_modifiers(
+        &self,
+        ext: &FileExtension,
+        data: &serde_yaml::Value,
+    ) -> Result<Vec<ModifierKind>, Error> {
         let modifier_kinds = match ext {
-            FileExtension::Yaml => modifiers_from_yaml_path(path)?,
+            FileExtension::Yaml => modifiers_from_yaml_value(data)?,
             //FileExtension::Json => modifiers_from_json_path(path)?,
             _ => Vec::new(),
         };
@@ -88,8 +93,13 @@ impl Configuration {
 
     fn load_file_with_ext(&self, path: &Path) -> Result<Vec<ModifierKind>, Error> {
         let ext = FileExtension::from_path(&path)?;
-        let character_converter = self.load_items_to_character_converter(path, &ext)?;
-        let mut modifiers = self.load_modifiers(path, &ext)?;
+        // 読み込み中にファイルが置き換えられても内容が混ざらないように、一度だけ読み込む
+        let data = match ext {
+            FileExtension::Yaml => yaml_value_from_path(path)?,
+            FileExtension::Csv => serde_yaml::Value::Null,
+        };
+        let character_converter = self.load_items_to_character_converter(path, &ext, &data)?;
+        let mut modifiers = self.load_modifiers(&ext, &data)?;
         modifiers.push(character_converter.into());
         Ok(modifiers)
     }
diff --git a/src/file.rs b/src/file.rs
index a5a2d0d..e5ff485 100644
--- a/src/file.rs
+++ b/src/file.rs
@@ -79,7 +79,15 @@ pub(crate) fn yaml_mapping(value: &serde_yaml::Value) -> Result<&serde_yaml::Map
 /// ```
 pub fn table_from_yaml_path(path: impl AsRef<Path>) -> Result<Table, Error> {
     let path = path.as_ref();
+    table_from_yaml_value(&yaml_value_from_path(path)?, path)
+}
+
+pub(crate) fn yaml_value_from_path(path: &Path) -> Result<serde_yaml::Value, Error> {
     let data: serde_yaml::Value = serde_yaml::from_reader(File::open(path)?)?;
+    Ok(data)
+}
+
+pub(crate) fn table_from_yaml_value(data: &serde_yaml::Value, path: &Path) -> Result<Table, Error> {
     let mut items = Vec::new();
     if let Some(seq) = data.get("items").and_then(|v| v.as_sequence()) {
         // - from: "a"
@@ -115,7 +123,12 @@ pub fn table_from_yaml_path(path: impl AsRef<Path>) -> Result<Table, Error> {
 /// ```
 pub fn modifiers_from_yaml_path(path: impl AsRef<Path>) -> Result<Vec<ModifierKind>, Error> {
     let path = path.as_ref();
-    let data: serde_yaml::Value = serde_yaml::from_reader(File::open(path)?)?;
+    modifiers_from_yaml_value(&yaml_value_from_path(path)?)
+}
+
+pub(crate) fn modifiers_from_yaml_value(
+    data: &serde_yaml::Value,
+) -> Result<Vec<ModifierKind>, Error> {
     let mut modifiers = Vec::new();
     if let Some(map) = data.get("modifiers") {
         for (key, value) in yaml_mapping(map)?.iter() {
-- 
2.43.0

