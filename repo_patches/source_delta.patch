From 2ec665bd4c654a8f24e564f7071cab075ce421da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:57 +0000
Subject: [PATCH 01/16] fix: lookups must not leave the container a path
 component denotes

---
 inter_core.go | 14 ++++++++++++--
 utils.go      | 10 ++++++++++
 2 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/inter_core.go b/inter_core.go
index 1ef3958..2ac96d7 100755
--- a/inter_core.go
+++ b/inter_core.go
@@ -78,6 +78,10 @@ func core(json []byte, justStart bool, path ...string) (int, int, int, error) {
 							if k != len(path)-1 {
 								return -1, -1, -1, errIndexOutOfRange()
 							}
+							// no zeroth element in an empty array.
+							if curr == 93 {
+								return -1, -1, -1, errEmptyArray()
+							}
 							break
 						}
 					}
@@ -265,6 +269,10 @@ func core(json []byte, justStart bool, path ...string) (int, int, int, error) {
 										keyStart = start
 										break
 									} else {
+										// rest of the path needs an object or an array.
+										if !startsWithBrace(json[i+1:]) {
+											return -1, -1, -1, errKeyNotFound(path[k+1])
+										}
 										continue
 									}
 								}
@@ -314,7 +322,8 @@ func core(json []byte, justStart bool, path ...string) (int, int, int, error) {
 										continue
 									}
 									if curr == 93 || curr == 125 {
-										if innerLevel < k+1 {
+										// end of the searched object.
+										if innerLevel < k+2 {
 											return -1, -1, -1, errKeyNotFound(currentPath)
 										}
 										innerLevel--
@@ -374,7 +383,8 @@ func core(json []byte, justStart bool, path ...string) (int, int, int, error) {
 					}
 					// Close brace
 					if curr == 93 || curr == 125 {
-						if level < k+1 {
+						// end of the searched object.
+						if level < k+2 {
 							return -1, -1, -1, errKeyNotFound(currentPath)
 						}
 						level--
diff --git a/utils.go b/utils.go
index 09ff21e..18a22ef 100755
--- a/utils.go
+++ b/utils.go
@@ -33,6 +33,16 @@ func space(curr byte) bool {
 	return false
 }
 
+// startsWithBrace reports whether first non-space char is an open brace.
+func startsWithBrace(json []byte) bool {
+	for _, curr := range json {
+		if !space(curr) {
+			return curr == 91 || curr == 123
+		}
+	}
+	return false
+}
+
 func createTabs(n int) []byte {
 	res := make([]byte, n)
 	for i := range res {
-- 
2.43.0


From 5c9ca15d44cba9c840f3f567f85850b3853b10a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:57 +0000
Subject: [PATCH 02/16] fix: iteration of empty containers, single byte values,
 last callback error

---
 inter_iter.go | 28 +++++++++++++++++++---------
 utils.go      | 42 ++++++++++++++++++++++++++++++++++++++----
 2 files changed, 57 insertions(+), 13 deletions(-)

diff --git a/inter_iter.go b/inter_iter.go
index 0b3138b..7d748a7 100755
--- a/inter_iter.go
+++ b/inter_iter.go
@@ -8,10 +8,9 @@ func IterateArray(json []byte, callback func([]byte) (bool, error), path ...stri
 	case 0, 1:
 		return errBadJSON(0)
 	case 2:
-		if string(json) == "[]" {
+		if len(path) == 0 && string(json) == "[]" {
 			return nil
 		}
-		return errBadJSON(0)
 	}
 	var start int
 	var err error
@@ -77,6 +76,10 @@ func IterateArray(json []byte, callback func([]byte) (bool, error), path ...stri
 				}
 				if curr == 93 {
 					if level == 0 {
+						// nothing between the braces, array is empty.
+						if isBlank(json[start:i]) {
+							return nil
+						}
 						_, innerError := callback(cleanValue(json[start:i]))
 						return innerError
 					}
@@ -106,7 +109,10 @@ func IterateArray(json []byte, callback func([]byte) (bool, error), path ...stri
 // It stripes quotation marks from string values befour return.
 // Path value can be left blank for access main JSON.
 func IterateKeyValue(json []byte, callback func([]byte, []byte) (bool, error), path ...string) error {
-	if string(json) == "{}" {
+	if len(json) < 2 {
+		return errBadJSON(0)
+	}
+	if len(path) == 0 && string(json) == "{}" {
 		return errEmpty()
 	}
 	var start int
@@ -114,7 +120,7 @@ func IterateKeyValue(json []byte, callback func([]byte, []byte) (bool, error), p
 	var end int
 	if len(path) == 0 {
 		for space(json[start]) {
-			if start > len(json)-1 {
+			if start > len(json)-2 {
 				return errBadJSON(start)
 			}
 			start++
@@ -176,6 +182,10 @@ func IterateKeyValue(json []byte, callback func([]byte, []byte) (bool, error), p
 				if curr == 93 || curr == 125 {
 					if curr == 125 {
 						if level == 1 {
+							// no key between the braces, object is empty.
+							if key == nil {
+								return nil
+							}
 							for j := start; j < i; j++ {
 								if !space(json[j]) {
 									start = j
@@ -189,11 +199,11 @@ func IterateKeyValue(json []byte, callback func([]byte, []byte) (bool, error), p
 								}
 							}
 							if json[start] == 34 && json[end] == 34 {
-								callback(key, json[start+1:end])
-								return nil
+								_, innerError := callback(key, json[start+1:end])
+								return innerError
 							}
-							callback(key, json[start:end+1])
-							return nil
+							_, innerError := callback(key, json[start:end+1])
+							return innerError
 						}
 					}
 					if level == 1 {
@@ -211,7 +221,7 @@ func IterateKeyValue(json []byte, callback func([]byte, []byte) (bool, error), p
 								break
 							}
 						}
-						for j := i - 1; j > start; j-- {
+						for j := i - 1; j > start-1; j-- {
 							if !space(json[j]) {
 								end = j
 								break
diff --git a/utils.go b/utils.go
index 18a22ef..43c100d 100755
--- a/utils.go
+++ b/utils.go
@@ -43,6 +43,35 @@ func startsWithBrace(json []byte) bool {
 	return false
 }
 
+// isBlank reports whether there is nothing but spaces.
+func isBlank(json []byte) bool {
+	for _, curr := range json {
+		if !space(curr) {
+			return false
+		}
+	}
+	return true
+}
+
+// trimBlank removes spaces from both ends.
+func trimBlank(str string) string {
+	for len(str) > 0 && space(str[0]) {
+		str = str[1:]
+	}
+	for len(str) > 0 && space(str[len(str)-1]) {
+		str = str[:len(str)-1]
+	}
+	return str
+}
+
+// joinPath returns a new path with one more element, given path stays untouched.
+func joinPath(path []string, last string) []string {
+	newPath := make([]string, len(path)+1)
+	copy(newPath, path)
+	newPath[len(path)] = last
+	return newPath
+}
+
 func createTabs(n int) []byte {
 	res := make([]byte, n)
 	for i := range res {
@@ -112,16 +141,19 @@ func isInt(val string) bool {
 }
 
 func cleanValueString(str string) string {
+	if len(str) == 0 {
+		return str
+	}
 	start := 0
 	lens := len(str)
 	for space(str[start]) && start < lens-1 {
 		start++
 	}
 	end := lens - 1
-	for space(str[end]) && end > 1 {
+	for space(str[end]) && end > start {
 		end--
 	}
-	if str[start] == 34 && str[end] == 34 {
+	if end > start && str[start] == 34 && str[end] == 34 {
 		start++
 		end--
 	}
@@ -147,7 +179,7 @@ func cleanValue(str []byte) []byte {
 		}
 		end--
 	}
-	if str[start] == 34 && str[end] == 34 {
+	if end > start && str[start] == 34 && str[end] == 34 {
 		start++
 		end--
 	}
@@ -174,7 +206,7 @@ func getStartEnd(json []byte, path ...string) (int, int, error) {
 		}
 	} else {
 		for space(json[start]) {
-			if start > len(json)-1 {
+			if start > len(json)-2 {
 				return -1, -1, errBadJSON(start)
 			}
 			start++
@@ -188,6 +220,8 @@ func getStartEnd(json []byte, path ...string) (int, int, error) {
 			end--
 			continue
 		}
+		// end is exclusive, same as core function.
+		end++
 	}
 	return start, end, nil
 }
-- 
2.43.0


From 3daae8f56bf199ec1443ce67aeac47daef8a88f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:58 +0000
Subject: [PATCH 03/16] fix: collection getters, typed array getters and Length
 on empty, single element and spaced containers

---
 inter_get.go | 67 ++++++++++++++++++++++++++++++++++++++++++----------
 others.go    |  6 ++++-
 parse_get.go | 24 +++++++++++++++++++
 3 files changed, 84 insertions(+), 13 deletions(-)

diff --git a/inter_get.go b/inter_get.go
index 369126f..023ff35 100755
--- a/inter_get.go
+++ b/inter_get.go
@@ -85,6 +85,9 @@ func GetStringArray(json []byte, path ...string) ([]string, error) {
 	if err != nil {
 		return nil, err
 	}
+	if len(path) == 0 {
+		val = trimBlank(val)
+	}
 	lena := len(val)
 	if lena < 2 {
 		return nil, errStringArrayParse(val)
@@ -107,6 +110,9 @@ func GetIntArray(json []byte, path ...string) ([]int, error) {
 	if err != nil {
 		return nil, err
 	}
+	if len(path) == 0 {
+		val = trimBlank(val)
+	}
 	lena := len(val)
 	if lena < 2 {
 		return nil, errIntegerArrayParse(val)
@@ -137,6 +143,10 @@ func GetIntArray(json []byte, path ...string) ([]int, error) {
 					if curr == 93 {
 						if level == 0 {
 							element := val[start:i]
+							// nothing between the braces, array is empty.
+							if len(newArray) == 0 && isBlank([]byte(element)) {
+								break
+							}
 							num, err := strconv.Atoi(cleanValueString(element))
 							if err != nil {
 								return nil, errIntegerParse(cleanValueString(element))
@@ -173,6 +183,9 @@ func GetFloatArray(json []byte, path ...string) ([]float64, error) {
 	if err != nil {
 		return nil, err
 	}
+	if len(path) == 0 {
+		val = trimBlank(val)
+	}
 	lena := len(val)
 	if lena < 2 {
 		return nil, errFloatArrayParse(val)
@@ -203,6 +216,10 @@ func GetFloatArray(json []byte, path ...string) ([]float64, error) {
 					if curr == 93 {
 						if level == 0 {
 							element := val[start:i]
+							// nothing between the braces, array is empty.
+							if len(newArray) == 0 && isBlank([]byte(element)) {
+								break
+							}
 							num, err := strconv.ParseFloat(cleanValueString(element), 64)
 							if err != nil {
 								return nil, errFloatParse(cleanValueString(element))
@@ -239,6 +256,9 @@ func GetBoolArray(json []byte, path ...string) ([]bool, error) {
 	if err != nil {
 		return nil, err
 	}
+	if len(path) == 0 {
+		val = trimBlank(val)
+	}
 	lena := len(val)
 	if lena < 2 {
 		return nil, errBoolArrayParse(val)
@@ -269,6 +289,10 @@ func GetBoolArray(json []byte, path ...string) ([]bool, error) {
 					if curr == 93 {
 						if level == 0 {
 							element := val[start:i]
+							// nothing between the braces, array is empty.
+							if len(newArray) == 0 && isBlank([]byte(element)) {
+								break
+							}
 							element = cleanValueString(element)
 							if element == "true" || element == "false" {
 								if element == "true" {
@@ -311,14 +335,17 @@ func GetBoolArray(json []byte, path ...string) ([]bool, error) {
 // Gets all keys that path has pointed.
 func GetKeys(json []byte, path ...string) ([]string, error) {
 	var keys []string
-	if string(json) == "{}" {
+	if len(json) < 2 {
+		return nil, errBadJSON(0)
+	}
+	if len(path) == 0 && string(json) == "{}" {
 		return nil, errEmpty()
 	}
 	var start int
 	var err error
 	if len(path) == 0 {
 		for space(json[start]) {
-			if start > len(json)-1 {
+			if start > len(json)-2 {
 				return nil, errBadJSON(start)
 			}
 			start++
@@ -401,14 +428,17 @@ func GetKeys(json []byte, path ...string) ([]string, error) {
 // Gets all values that path has pointed.
 func GetValues(json []byte, path ...string) ([]string, error) {
 	var values []string
-	if string(json) == "{}" {
+	if len(json) < 2 {
+		return nil, errBadJSON(0)
+	}
+	if len(path) == 0 && string(json) == "{}" {
 		return nil, errEmpty()
 	}
 	var start int
 	var err error
 	if len(path) == 0 {
 		for space(json[start]) {
-			if start > len(json)-1 {
+			if start > len(json)-2 {
 				return nil, errBadJSON(start)
 			}
 			start++
@@ -426,6 +456,7 @@ func GetValues(json []byte, path ...string) ([]string, error) {
 		isJSONChar[v] = true
 	}
 	if json[start] == 123 {
+		hasKey := false
 		inQuote := false
 		level := 0
 		for i := start; i < len(json); i++ {
@@ -461,6 +492,10 @@ func GetValues(json []byte, path ...string) ([]string, error) {
 				}
 				if curr == 93 || curr == 125 {
 					if level == 1 {
+						// no key between the braces, object is empty.
+						if !hasKey {
+							break
+						}
 						value := cleanValueString(string(json[start:i]))
 						values = append(values, value)
 						break
@@ -471,6 +506,7 @@ func GetValues(json []byte, path ...string) ([]string, error) {
 				if curr == 58 {
 					if level == 1 {
 						start = i + 1
+						hasKey = true
 					}
 					continue
 				}
@@ -493,14 +529,17 @@ func GetValues(json []byte, path ...string) ([]string, error) {
 func GetKeysValues(json []byte, path ...string) ([]string, []string, error) {
 	var values []string
 	var keys []string
-	if string(json) == "{}" {
+	if len(json) < 2 {
+		return nil, nil, errBadJSON(0)
+	}
+	if len(path) == 0 && string(json) == "{}" {
 		return nil, nil, errEmpty()
 	}
 	var start int
 	var err error
 	if len(path) == 0 {
 		for space(json[start]) {
-			if start > len(json)-1 {
+			if start > len(json)-2 {
 				return nil, nil, errBadJSON(start)
 			}
 			start++
@@ -560,6 +599,10 @@ func GetKeysValues(json []byte, path ...string) ([]string, []string, error) {
 				}
 				if curr == 93 || curr == 125 {
 					if level == 1 {
+						// no key between the braces, object is empty.
+						if len(keys) == 0 {
+							break
+						}
 						value := cleanValueString(string(json[start:i]))
 						values = append(values, value)
 						break
@@ -591,7 +634,7 @@ func GetKeysValues(json []byte, path ...string) ([]string, []string, error) {
 
 // GetMap Gets all keys and values pair with string to string map.
 func GetMap(json []byte, path ...string) (map[string]string, error) {
-	if string(json) == "[]" || string(json) == "{}" {
+	if len(path) == 0 && (string(json) == "[]" || string(json) == "{}") {
 		return nil, nil
 	}
 	start, end, err := getStartEnd(json, path...)
@@ -599,7 +642,7 @@ func GetMap(json []byte, path ...string) (map[string]string, error) {
 		return nil, err
 	}
 	mainMap := make(map[string]string)
-	if json[start] == 123 && json[end] == 125 {
+	if json[start] == 123 && json[end-1] == 125 {
 		err = IterateKeyValue(json, func(key, val []byte) (bool, error) {
 			mainMap[string(key)] = string(val)
 			return true, nil
@@ -609,7 +652,7 @@ func GetMap(json []byte, path ...string) (map[string]string, error) {
 		}
 		return mainMap, nil
 	}
-	if json[start] == 91 && json[end] == 93 {
+	if json[start] == 91 && json[end-1] == 93 {
 		count := 0
 		err = IterateArray(json, func(val []byte) (bool, error) {
 			mainMap[strconv.Itoa(count)] = string(val)
@@ -621,7 +664,7 @@ func GetMap(json []byte, path ...string) (map[string]string, error) {
 		}
 		return mainMap, nil
 	}
-	return nil, errBadJSON(start)
+	return nil, errObjectExpected()
 }
 
 // GetAll not tested yet
@@ -631,7 +674,7 @@ func GetAll(json []byte, keys []string, path ...string) ([]string, error) {
 	var val string
 	results := make([]string, 0, len(keys))
 	for _, k := range keys {
-		val, err = GetString(json, append(path, k)...)
+		val, err = GetString(json, joinPath(path, k)...)
 		if err != nil {
 			return nil, err
 		}
@@ -647,7 +690,7 @@ func GetAllMap(json []byte, keys []string, path ...string) (map[string]string, e
 	var val string
 	results := make(map[string]string)
 	for _, k := range keys {
-		val, err = GetString(json, append(path, k)...)
+		val, err = GetString(json, joinPath(path, k)...)
 		if err != nil {
 			return nil, err
 		}
diff --git a/others.go b/others.go
index f35b3c2..7bd54b6 100755
--- a/others.go
+++ b/others.go
@@ -3,7 +3,7 @@ package jin
 // Length function gives the length of any array or object
 // that path has pointed.
 func Length(json []byte, path ...string) (int, error) {
-	if string(json) == "[]" || string(json) == "{}" {
+	if len(path) == 0 && (string(json) == "[]" || string(json) == "{}") {
 		return 0, nil
 	}
 	start, end, err := getStartEnd(json, path...)
@@ -215,6 +215,10 @@ func ParseArray(arr string) []string {
 					if curr == 93 {
 						if level == 0 {
 							val := arr[start:i]
+							// nothing between the braces, array is empty.
+							if len(newArray) == 0 && isBlank([]byte(val)) {
+								break
+							}
 							val = cleanValueString(val)
 							newArray = append(newArray, val)
 							break
diff --git a/parse_get.go b/parse_get.go
index a0027a0..3621f50 100755
--- a/parse_get.go
+++ b/parse_get.go
@@ -110,6 +110,9 @@ func (p *Parser) GetStringArray(path ...string) ([]string, error) {
 	if err != nil {
 		return nil, err
 	}
+	if len(path) == 0 {
+		val = trimBlank(val)
+	}
 	lena := len(val)
 	if lena < 2 {
 		return nil, errStringArrayParse(val)
@@ -132,6 +135,9 @@ func (p *Parser) GetIntArray(path ...string) ([]int, error) {
 	if err != nil {
 		return nil, err
 	}
+	if len(path) == 0 {
+		val = trimBlank(val)
+	}
 	lena := len(val)
 	if lena < 2 {
 		return nil, errIntegerArrayParse(val)
@@ -162,6 +168,10 @@ func (p *Parser) GetIntArray(path ...string) ([]int, error) {
 					if curr == 93 {
 						if level == 0 {
 							element := val[start:i]
+							// nothing between the braces, array is empty.
+							if len(newArray) == 0 && isBlank([]byte(element)) {
+								break
+							}
 							num, err := strconv.Atoi(cleanValueString(element))
 							if err != nil {
 								return nil, errIntegerParse(cleanValueString(element))
@@ -198,6 +208,9 @@ func (p *Parser) GetFloatArray(path ...string) ([]float64, error) {
 	if err != nil {
 		return nil, err
 	}
+	if len(path) == 0 {
+		val = trimBlank(val)
+	}
 	lena := len(val)
 	if lena < 2 {
 		return nil, errFloatArrayParse(val)
@@ -228,6 +241,10 @@ func (p *Parser) GetFloatArray(path ...string) ([]float64, error) {
 					if curr == 93 {
 						if level == 0 {
 							element := val[start:i]
+							// nothing between the braces, array is empty.
+							if len(newArray) == 0 && isBlank([]byte(element)) {
+								break
+							}
 							num, err := strconv.ParseFloat(cleanValueString(element), 64)
 							if err != nil {
 								return nil, errFloatParse(cleanValueString(element))
@@ -264,6 +281,9 @@ func (p *Parser) GetBoolArray(path ...string) ([]bool, error) {
 	if err != nil {
 		return nil, err
 	}
+	if len(path) == 0 {
+		val = trimBlank(val)
+	}
 	lena := len(val)
 	if lena < 2 {
 		return nil, errBoolArrayParse(val)
@@ -294,6 +314,10 @@ func (p *Parser) GetBoolArray(path ...string) ([]bool, error) {
 					if curr == 93 {
 						if level == 0 {
 							element := val[start:i]
+							// nothing between the braces, array is empty.
+							if len(newArray) == 0 && isBlank([]byte(element)) {
+								break
+							}
 							element = cleanValueString(element)
 							if element == "true" || element == "false" {
 								if element == "true" {
-- 
2.43.0


From 84031c01d7442c0319b20a2885013f050295ff2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:58 +0000
Subject: [PATCH 04/16] fix: IsObject accepts arrays, IsEmpty skips last byte,
 GetType of huge numbers

---
 inter_type.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/inter_type.go b/inter_type.go
index fd8015a..59a85c4 100755
--- a/inter_type.go
+++ b/inter_type.go
@@ -15,7 +15,7 @@ const (
 // If path points to an object it will return true, otherwise it will return false.
 // In this instance 'object' means everything that has starts and ends with curly brace.
 func IsObject(json []byte, path ...string) (bool, error) {
-	state, _, err := typeControlCore(json, []byte{91, 123}, true, path...)
+	state, _, err := typeControlCore(json, []byte{123}, true, path...)
 	if err != nil {
 		return false, err
 	}
@@ -77,6 +77,10 @@ func GetType(json []byte, path ...string) (string, error) {
 	if err == nil {
 		return TypeNumber, nil
 	}
+	// a number even if it is too big for a float64.
+	if numErr, ok := err.(*strconv.NumError); ok && numErr.Err == strconv.ErrRange {
+		return TypeNumber, nil
+	}
 	return TypeString, nil
 }
 
@@ -93,7 +97,7 @@ func IsEmpty(json []byte, path ...string) (bool, error) {
 	var err error
 	if len(path) == 0 {
 		for space(json[start]) {
-			if start > len(json)-1 {
+			if start > len(json)-2 {
 				return false, errBadJSON(start)
 			}
 			start++
@@ -113,13 +117,17 @@ func IsEmpty(json []byte, path ...string) (bool, error) {
 		}
 		end--
 	}
+	// value is a string, braces are part of it.
+	if start > 0 && json[start-1] == 34 {
+		return false, errObjectExpected()
+	}
 	braceStart := json[start]
 	braceEnd := json[end]
 	if braceStart == 91 || braceStart == 123 {
 		if braceStart+2 != braceEnd {
 			return false, errBadJSON(end)
 		}
-		for i := start + 1; i < end-1; i++ {
+		for i := start + 1; i < end; i++ {
 			if !space(json[i]) {
 				return false, nil
 			}
@@ -138,7 +146,7 @@ func typeControlCore(json []byte, control []byte, equal bool, path ...string) (b
 	var err error
 	if len(path) == 0 {
 		for space(json[start]) {
-			if start > len(json)-1 {
+			if start > len(json)-2 {
 				return false, -1, errBadJSON(start)
 			}
 			start++
-- 
2.43.0


From 7b041228c45a614b202f179919c1ab2bacfd79b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:58 +0000
Subject: [PATCH 05/16] fix: Walk does not stop on false and shares the path
 between callbacks

---
 walk.go | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/walk.go b/walk.go
index 2c13fbd..abb2104 100644
--- a/walk.go
+++ b/walk.go
@@ -1,15 +1,29 @@
 package jin
 
-import "strconv"
+import (
+	"errors"
+	"strconv"
+)
+
+// errWalkStopped carries the false result of a callback to the beginning of the walk.
+var errWalkStopped = errors.New("walk stopped")
+
+// stopWalk turns errWalkStopped to a normal ending.
+func stopWalk(err error) error {
+	if err == errWalkStopped {
+		return nil
+	}
+	return err
+}
 
 func (j *JO) Walk(callback func(k string, v []byte, p []string) (bool, error)) error {
 	path := []string{}
-	return walk(j.body, path, callback)
+	return stopWalk(walk(j.body, path, callback))
 }
 
 func Walk(json []byte, callback func(k string, v []byte, p []string) (bool, error)) error {
 	path := []string{}
-	return walk(json, path, callback)
+	return stopWalk(walk(json, path, callback))
 }
 
 func walk(json []byte, path []string, callback func(k string, v []byte, p []string) (bool, error)) error {
@@ -20,7 +34,7 @@ func walk(json []byte, path []string, callback func(k string, v []byte, p []stri
 	switch t {
 	case TypeObject:
 		err := IterateKeyValue(json, func(keyBytes, _ []byte) (bool, error) {
-			err = walk(json, append(path, string(keyBytes)), callback)
+			err = walk(json, joinPath(path, string(keyBytes)), callback)
 			if err != nil {
 				return false, err
 			}
@@ -32,7 +46,7 @@ func walk(json []byte, path []string, callback func(k string, v []byte, p []stri
 	case TypeArray:
 		i := 0
 		err := IterateArray(json, func(_ []byte) (bool, error) {
-			err = walk(json, append(path, strconv.Itoa(i)), callback)
+			err = walk(json, joinPath(path, strconv.Itoa(i)), callback)
 			if err != nil {
 				return false, err
 			}
@@ -56,7 +70,7 @@ func walk(json []byte, path []string, callback func(k string, v []byte, p []stri
 			return err
 		}
 		if !keepGoing {
-			return nil
+			return errWalkStopped
 		}
 	}
 	return nil
-- 
2.43.0


From 874a676279a412a0e4621e2fee610223a8128081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:30 +0000
Subject: [PATCH 06/16] fix: Add, Insert, AddKeyValue and Store: decimal
 integers, strings that look like containers, given document on failure, last
 element position

---
 inter_add.go      | 56 +++++++++++++++++++++++++++++------------------
 inter_set.go      |  2 +-
 jin_object_add.go |  4 ++--
 3 files changed, 38 insertions(+), 24 deletions(-)

diff --git a/inter_add.go b/inter_add.go
index 5eb2cad..98723eb 100755
--- a/inter_add.go
+++ b/inter_add.go
@@ -48,6 +48,10 @@ func AddKeyValue(json []byte, key string, value []byte, path ...string) ([]byte,
 			return json, err
 		}
 	}
+	// value is a string, braces are part of it.
+	if start > 0 && json[start-1] == 34 {
+		return json, errObjectExpected()
+	}
 	if json[start] == 123 && json[end-1] == 125 {
 		empty := true
 		for i := start + 1; i < end-1; i++ {
@@ -60,8 +64,7 @@ func AddKeyValue(json []byte, key string, value []byte, path ...string) ([]byte,
 			json = replace(json, val, end-1, end-1)
 			return json, nil
 		}
-		path = append(path, key)
-		_, _, _, err = core(json, false, path...)
+		_, _, _, err = core(json, false, joinPath(path, key)...)
 		if err != nil {
 			if ErrEqual(err, ErrCodeKeyNotFound) {
 				val := []byte(`,"` + key + `":` + string(value))
@@ -118,6 +121,10 @@ func Add(json []byte, value []byte, path ...string) ([]byte, error) {
 			return json, err
 		}
 	}
+	// value is a string, braces are part of it.
+	if start > 0 && json[start-1] == 34 {
+		return json, errArrayExpected()
+	}
 	if json[start] == 91 && json[end-1] == 93 {
 		empty := true
 		for i := start + 1; i < end-1; i++ {
@@ -145,6 +152,9 @@ func Insert(json []byte, index int, value []byte, path ...string) ([]byte, error
 	var start int
 	var end int
 	var err error
+	if len(json) < 2 {
+		return json, errBadJSON(0)
+	}
 	if len(path) == 0 {
 		for i := 0; i < len(json); i++ {
 			if !space(json[i]) {
@@ -178,10 +188,14 @@ func Insert(json []byte, index int, value []byte, path ...string) ([]byte, error
 			return json, err
 		}
 	}
+	// value is a string, braces are part of it.
+	if start > 0 && json[start-1] == 34 {
+		return json, errArrayExpected()
+	}
 	if json[start] != 91 || json[end-1] != 93 {
 		return json, errArrayExpected()
 	}
-	_, start, end, err = core(json, false, append(path, strconv.Itoa(index))...)
+	_, start, end, err = core(json, false, joinPath(path, strconv.Itoa(index))...)
 	if err != nil {
 		return json, err
 	}
@@ -223,7 +237,7 @@ func Insert(json []byte, index int, value []byte, path ...string) ([]byte, error
 		val := make([]byte, 0, len(value)+1)
 		val = append(val, 44)
 		val = append(val, value...)
-		json = replace(json, val, start-1, start-1)
+		json = replace(json, val, startEdge, startEdge)
 		return json, nil
 	}
 	return json, errBadJSON(start)
@@ -233,7 +247,7 @@ func Insert(json []byte, index int, value []byte, path ...string) ([]byte, error
 // Type of new value must be a string.
 func AddKeyValueString(json []byte, key, value string, path ...string) ([]byte, error) {
 	if len(key) == 0 {
-		return nil, errNullKey()
+		return json, errNullKey()
 	}
 	return AddKeyValue(json, key, []byte(formatType(value)), path...)
 }
@@ -253,7 +267,7 @@ func AddKeyValueUint(json []byte, key string, value uint, path ...string) ([]byt
 	if len(key) == 0 {
 		return json, errNullKey()
 	}
-	return AddKeyValue(json, key, []byte(strconv.FormatUint(uint64(value), 64)), path...)
+	return AddKeyValue(json, key, []byte(strconv.FormatUint(uint64(value), 10)), path...)
 }
 
 // AddKeyValueInt32 is a variation of AddKeyValue() func.
@@ -262,7 +276,7 @@ func AddKeyValueInt32(json []byte, key string, value int32, path ...string) ([]b
 	if len(key) == 0 {
 		return json, errNullKey()
 	}
-	return AddKeyValue(json, key, []byte(strconv.FormatInt(int64(value), 32)), path...)
+	return AddKeyValue(json, key, []byte(strconv.FormatInt(int64(value), 10)), path...)
 }
 
 // AddKeyValueInt64 is a variation of AddKeyValue() func.
@@ -271,7 +285,7 @@ func AddKeyValueInt64(json []byte, key string, value int64, path ...string) ([]b
 	if len(key) == 0 {
 		return json, errNullKey()
 	}
-	return AddKeyValue(json, key, []byte(strconv.FormatInt(value, 64)), path...)
+	return AddKeyValue(json, key, []byte(strconv.FormatInt(value, 10)), path...)
 }
 
 // AddKeyValueUint32 is a variation of AddKeyValue() func.
@@ -280,7 +294,7 @@ func AddKeyValueUint32(json []byte, key string, value uint32, path ...string) ([
 	if len(key) == 0 {
 		return json, errNullKey()
 	}
-	return AddKeyValue(json, key, []byte(strconv.FormatUint(uint64(value), 32)), path...)
+	return AddKeyValue(json, key, []byte(strconv.FormatUint(uint64(value), 10)), path...)
 }
 
 // AddKeyValueUint64 is a variation of AddKeyValue() func.
@@ -289,7 +303,7 @@ func AddKeyValueUint64(json []byte, key string, value uint64, path ...string) ([
 	if len(key) == 0 {
 		return json, errNullKey()
 	}
-	return AddKeyValue(json, key, []byte(strconv.FormatUint(value, 64)), path...)
+	return AddKeyValue(json, key, []byte(strconv.FormatUint(value, 10)), path...)
 }
 
 // AddKeyValueFloat is a variation of AddKeyValue() func.
@@ -328,31 +342,31 @@ func AddInt(json []byte, value int, path ...string) ([]byte, error) {
 // AddInt32 is a variation of Add() func.
 // Type of new value must be an integer.
 func AddInt32(json []byte, value int32, path ...string) ([]byte, error) {
-	return Add(json, []byte(strconv.FormatInt(int64(value), 32)), path...)
+	return Add(json, []byte(strconv.FormatInt(int64(value), 10)), path...)
 }
 
 // AddInt64 is a variation of Add() func.
 // Type of new value must be an integer.
 func AddInt64(json []byte, value int64, path ...string) ([]byte, error) {
-	return Add(json, []byte(strconv.FormatInt(value, 64)), path...)
+	return Add(json, []byte(strconv.FormatInt(value, 10)), path...)
 }
 
 // AddUint is a variation of Add() func.
 // Type of new value must be an integer.
 func AddUint(json []byte, value uint, path ...string) ([]byte, error) {
-	return Add(json, []byte(strconv.FormatUint(uint64(value), 64)), path...)
+	return Add(json, []byte(strconv.FormatUint(uint64(value), 10)), path...)
 }
 
 // AddUint32 is a variation of Add() func.
 // Type of new value must be an integer.
 func AddUint32(json []byte, value uint32, path ...string) ([]byte, error) {
-	return Add(json, []byte(strconv.FormatUint(uint64(value), 32)), path...)
+	return Add(json, []byte(strconv.FormatUint(uint64(value), 10)), path...)
 }
 
 // AddUint64 is a variation of Add() func.
 // Type of new value must be an integer.
 func AddUint64(json []byte, value uint64, path ...string) ([]byte, error) {
-	return Add(json, []byte(strconv.FormatUint(value, 64)), path...)
+	return Add(json, []byte(strconv.FormatUint(value, 10)), path...)
 }
 
 // AddFloat is a variation of Add() func.
@@ -374,7 +388,7 @@ func AddBool(json []byte, value bool, path ...string) ([]byte, error) {
 // Type of new value must be an string.
 func InsertString(json []byte, index int, value string, path ...string) ([]byte, error) {
 	if index < 0 {
-		return nil, errIndexOutOfRange()
+		return json, errIndexOutOfRange()
 	}
 	return Insert(json, index, []byte(formatType(value)), path...)
 }
@@ -394,7 +408,7 @@ func InsertInt32(json []byte, index int, value int32, path ...string) ([]byte, e
 	if index < 0 {
 		return json, errIndexOutOfRange()
 	}
-	return Insert(json, index, []byte(strconv.FormatInt(int64(value), 32)), path...)
+	return Insert(json, index, []byte(strconv.FormatInt(int64(value), 10)), path...)
 }
 
 // InsertInt64 is a variation of Insert() func.
@@ -403,7 +417,7 @@ func InsertInt64(json []byte, index int, value int64, path ...string) ([]byte, e
 	if index < 0 {
 		return json, errIndexOutOfRange()
 	}
-	return Insert(json, index, []byte(strconv.FormatInt(value, 64)), path...)
+	return Insert(json, index, []byte(strconv.FormatInt(value, 10)), path...)
 }
 
 // InsertUint is a variation of Insert() func.
@@ -412,7 +426,7 @@ func InsertUint(json []byte, index int, value uint, path ...string) ([]byte, err
 	if index < 0 {
 		return json, errIndexOutOfRange()
 	}
-	return Insert(json, index, []byte(strconv.FormatUint(uint64(value), 64)), path...)
+	return Insert(json, index, []byte(strconv.FormatUint(uint64(value), 10)), path...)
 }
 
 // InsertUint32 is a variation of Insert() func.
@@ -421,7 +435,7 @@ func InsertUint32(json []byte, index int, value uint32, path ...string) ([]byte,
 	if index < 0 {
 		return json, errIndexOutOfRange()
 	}
-	return Insert(json, index, []byte(strconv.FormatUint(uint64(value), 32)), path...)
+	return Insert(json, index, []byte(strconv.FormatUint(uint64(value), 10)), path...)
 }
 
 // InsertUint64 is a variation of Insert() func.
@@ -430,7 +444,7 @@ func InsertUint64(json []byte, index int, value uint64, path ...string) ([]byte,
 	if index < 0 {
 		return json, errIndexOutOfRange()
 	}
-	return Insert(json, index, []byte(strconv.FormatUint(value, 64)), path...)
+	return Insert(json, index, []byte(strconv.FormatUint(value, 10)), path...)
 }
 
 // InsertFloat is a variation of Insert() func.
diff --git a/inter_set.go b/inter_set.go
index f32c914..5070a9c 100755
--- a/inter_set.go
+++ b/inter_set.go
@@ -92,7 +92,7 @@ func SetKey(json []byte, newKey string, path ...string) ([]byte, error) {
 // Store sets or adds a new value to the body
 // like a real json store event
 func Store(json []byte, key string, value []byte, path ...string) ([]byte, error) {
-	_, start, end, err := core(json, false, append(path, key)...)
+	_, start, end, err := core(json, false, joinPath(path, key)...)
 	if err != nil {
 		if ErrEqual(err, ErrCodeKeyNotFound) {
 			return AddKeyValue(json, key, value, path...)
diff --git a/jin_object_add.go b/jin_object_add.go
index 49e602d..477458a 100644
--- a/jin_object_add.go
+++ b/jin_object_add.go
@@ -108,7 +108,7 @@ func (j *JO) InsertBool(index int, value bool, path ...string) error {
 }
 
 func (j *JO) Store(key string, value []byte, path ...string) error {
-	_, start, end, err := core(j.body, false, append(path, key)...)
+	_, start, end, err := core(j.body, false, joinPath(path, key)...)
 	if err != nil {
 		if ErrEqual(err, ErrCodeKeyNotFound) {
 			j.body, err = AddKeyValue(j.body, key, value, path...)
@@ -127,7 +127,7 @@ func (j *JO) Store(key string, value []byte, path ...string) error {
 // StoreString jin_object method for same function name with interpreter
 func (j *JO) StoreString(key string, value string, path ...string) error {
 	var err error
-	j.body, err = Store(j.body, key, []byte(value), path...)
+	j.body, err = Store(j.body, key, []byte(formatType(value)), path...)
 	return err
 }
 
-- 
2.43.0


From cbdc50d657cbda14793852ab37015082631dfcfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:34 +0000
Subject: [PATCH 07/16] fix: Parse of single element arrays and of unbalanced
 braces

---
 parse_core.go | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/parse_core.go b/parse_core.go
index 0dee1ff..07a9dc1 100755
--- a/parse_core.go
+++ b/parse_core.go
@@ -22,7 +22,7 @@ func pCore(json []byte, core *node) error {
 		isJSONChar[v] = true
 	}
 	for space(json[start]) {
-		if start > len(json)-1 {
+		if start > len(json)-2 {
 			return nil
 		}
 		start++
@@ -79,7 +79,17 @@ func pCore(json []byte, core *node) error {
 				last = curr
 				continue
 			case 93, 125:
+				// more closing braces than opening ones.
+				if core.up == nil {
+					return errBadJSON(i)
+				}
 				switch last {
+				case 91:
+					// only element of an array.
+					if !isBlank(json[valStart:i]) {
+						newNode := &node{up: core, label: strconv.Itoa(indexList.last()), value: json[valStart:i]}
+						core.down = append(core.down, newNode)
+					}
 				case 58:
 					newNode := &node{up: core, label: byteArrayToString(key), value: json[valStart:i]}
 					core.down = append(core.down, newNode)
@@ -94,6 +104,10 @@ func pCore(json []byte, core *node) error {
 				last = curr
 				continue
 			case 58:
+				// there is no key before the column.
+				if end < start {
+					return errBadJSON(i)
+				}
 				key = json[start:end]
 				valStart = i + 1
 				last = 58
@@ -114,5 +128,9 @@ func pCore(json []byte, core *node) error {
 			}
 		}
 	}
+	// some braces are not closed.
+	if core.up != nil {
+		return errBadJSON(lenj)
+	}
 	return nil
 }
-- 
2.43.0


From d096bfb4bd81b085af96f1271695e0b8cf87c8f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:34 +0000
Subject: [PATCH 08/16] fix: Parser edits keep tree and text in step, failed
 edits change nothing

---
 parse_add.go    | 297 +++---------------------------------------------
 parse_delete.go |  13 +--
 parse_set.go    |  55 ++-------
 parse_utils.go  |  75 ++++++++++--
 4 files changed, 96 insertions(+), 344 deletions(-)

diff --git a/parse_add.go b/parse_add.go
index 8361fd1..3463446 100755
--- a/parse_add.go
+++ b/parse_add.go
@@ -8,334 +8,73 @@ import (
 // Path variable must point to an object,
 // otherwise it will provide an error message.
 func (p *Parser) AddKeyValue(key string, newVal []byte, path ...string) error {
-	lenp := len(path)
 	lenv := len(key)
 	var curr *node
 	var err error
 	if lenv == 0 {
 		return errNullKey()
 	}
-	json, err := p.Get(path...)
-	if err != nil {
-		return err
-	}
-	curr = p.core
-	if lenp == 0 {
-		for _, d := range curr.down {
-			if d.label == key {
-				return errKeyAlreadyExist(key)
-			}
-		}
-		if len(json) >= 2 {
-			if json[0] == 123 && json[len(json)-1] == 125 {
-				newKV := []byte(`,"` + key + `":` + string(newVal))
-				if lenv >= 2 {
-					if newVal[0] == 91 || newVal[0] == 123 {
-						newNode := createNode(nil)
-						pCore(newVal, newNode)
-						newNode.label = key
-						newNode.value = newVal
-						if len(p.json) == 2 {
-							p.json = replace(p.json, newKV[1:], len(p.json)-1, len(p.json)-1)
-						} else {
-							p.json = replace(p.json, newKV, len(p.json)-1, len(p.json)-1)
-						}
-						curr.down = append(curr.down, newNode)
-						newNode.up = curr
-						return nil
-					}
-				}
-				p.json = replace(p.json, newKV, len(p.json)-1, len(p.json)-1)
-				newNode := createNode(nil)
-				newNode.label = key
-				newNode.value = newVal
-				curr.down = append(curr.down, newNode)
-				newNode.up = curr
-				return nil
-			}
-			return errObjectExpected()
-		}
-		return errBadJSON(0)
+	if newVal == nil {
+		newVal = []byte("null")
 	}
 	curr, err = p.core.walk(path)
 	if err != nil {
 		return err
 	}
-	for _, d := range curr.up.down {
-		if d.label == key {
-			return errKeyAlreadyExist(key)
-		}
-	}
-	if len(json) >= 2 {
-		if json[0] == 123 && json[len(json)-1] == 125 {
-			if lenv >= 2 {
-				if newVal[0] == 91 || newVal[0] == 123 {
-					newNode := createNode(nil)
-					pCore(newVal, newNode)
-					newNode.label = key
-					newNode.value = newVal
-					curr.down = append(curr.down, newNode)
-					newNode.up = curr
-					p.json, err = AddKeyValue(p.json, key, newVal, path...)
-					if err != nil {
-						return err
-					}
-					for i := 0; i < lenp; i++ {
-						newNode = newNode.up
-						newNode.value, err = Get(p.json, path[:lenp-i]...)
-						if err != nil {
-							return err
-						}
-					}
-					return nil
-				}
-			}
-			newNode := createNode(nil)
-			newNode.label = key
-			newNode.value = newVal
-			curr.down = append(curr.down, newNode)
-			newNode.up = curr
-			p.json, err = AddKeyValue(p.json, key, newVal, path...)
-			if err != nil {
-				return err
-			}
-			for i := 0; i < lenp; i++ {
-				newNode = newNode.up
-				newNode.value, err = Get(p.json, path[:lenp-i]...)
-				if err != nil {
-					return err
-				}
-			}
-			return nil
-		}
-		return errObjectExpected()
+	json, err := AddKeyValue(p.json, key, newVal, path...)
+	if err != nil {
+		return err
 	}
-	return errBadJSON(0)
+	curr.down = append(curr.down, makeNode(curr, key, newVal))
+	return p.update(json, path)
 }
 
 // Add adds a value to an array.
 // Path variable must point to an array,
 // otherwise it will provide an error message.
 func (p *Parser) Add(newVal []byte, path ...string) error {
-	lenp := len(path)
 	lenv := len(newVal)
 	var curr *node
 	var err error
 	if lenv == 0 {
 		return errNullKey()
 	}
-	json, err := p.Get(path...)
-	if err != nil {
-		return err
-	}
+	curr, err = p.core.walk(path)
 	if err != nil {
 		return err
 	}
-	if lenp == 0 {
-		curr = p.core
-		if len(json) >= 2 {
-			if json[0] == 91 && json[len(json)-1] == 93 {
-				newValue := []byte(`,` + string(newVal))
-				if lenv >= 2 {
-					if newVal[0] == 91 || newVal[0] == 123 {
-						newNode := createNode(nil)
-						pCore(newVal, newNode)
-						index := len(curr.down)
-						newNode.label = strconv.Itoa(index)
-						newNode.value = newVal
-						if len(p.json) == 2 {
-							p.json = replace(p.json, newValue[1:], len(p.json)-1, len(p.json)-1)
-						} else {
-							p.json = replace(p.json, newValue, len(p.json)-1, len(p.json)-1)
-						}
-						curr.down = append(curr.down, newNode)
-						newNode.up = curr
-						return nil
-					}
-				}
-				p.json = replace(p.json, newValue, len(p.json)-1, len(p.json)-1)
-				newNode := createNode(nil)
-				index := len(curr.down)
-				newNode.label = strconv.Itoa(index)
-				newNode.value = newVal
-				curr.down = append(curr.down, newNode)
-				newNode.up = curr
-				return nil
-			}
-			return errArrayExpected()
-		}
-		return errBadJSON(0)
-	}
-	curr, err = p.core.walk(path)
+	json, err := Add(p.json, newVal, path...)
 	if err != nil {
 		return err
 	}
-	if len(json) >= 2 {
-		if json[0] == 91 && json[len(json)-1] == 93 {
-			if lenv >= 2 {
-				if newVal[0] == 91 || newVal[0] == 123 {
-					newNode := createNode(nil)
-					pCore(newVal, newNode)
-					index := len(curr.down)
-					newNode.label = strconv.Itoa(index)
-					newNode.value = newVal
-					curr.down = append(curr.down, newNode)
-					newNode.up = curr
-					p.json, err = Add(p.json, newVal, path...)
-					if err != nil {
-						return err
-					}
-					for i := 0; i < lenp-1; i++ {
-						newNode = newNode.up
-						newNode.value, err = Get(p.json, path[:lenp-i]...)
-						if err != nil {
-							return err
-						}
-					}
-					return nil
-				}
-			}
-			newNode := createNode(nil)
-			index := len(curr.down)
-			newNode.label = strconv.Itoa(index)
-			newNode.value = newVal
-			curr.down = append(curr.down, newNode)
-			newNode.up = curr
-			p.json, err = Add(p.json, newVal, path...)
-			if err != nil {
-				return err
-			}
-			for i := 0; i < lenp; i++ {
-				newNode = newNode.up
-				newNode.value, err = Get(p.json, path[:lenp-i]...)
-				if err != nil {
-					return err
-				}
-			}
-			return nil
-		}
-		return errArrayExpected()
-	}
-	return errBadJSON(0)
+	index := len(curr.down)
+	curr.down = append(curr.down, makeNode(curr, strconv.Itoa(index), newVal))
+	return p.update(json, path)
 }
 
 // Insert inserts a value to an array.
 // Path variable must point to an array,
 // otherwise it will provide an error message.
 func (p *Parser) Insert(newIndex int, newVal []byte, path ...string) error {
-	lenp := len(path)
 	lenv := len(newVal)
 	var curr *node
 	var err error
 	if lenv == 0 {
 		return errNullKey()
 	}
-	json, err := p.Get(path...)
+	curr, err = p.core.walk(path)
 	if err != nil {
 		return err
 	}
-	curr = p.core
-	if lenp == 0 {
-		if len(json) >= 2 {
-			if json[0] == 91 && json[len(json)-1] == 93 {
-				if lenv >= 2 {
-					if newVal[0] == 91 || newVal[0] == 123 {
-						newNode := createNode(nil)
-						pCore(newVal, newNode)
-						err = newNode.insert(curr, newIndex)
-						if err != nil {
-							return err
-						}
-						p.json, err = Insert(p.json, newIndex, newVal, path...)
-						if err != nil {
-							return err
-						}
-						err = newNode.insert(curr, newIndex)
-						if err != nil {
-							return err
-						}
-						curr.down = append(curr.down, newNode)
-						newNode.up = curr
-						return nil
-					}
-				}
-				newNode := createNode(nil)
-				err = newNode.insert(curr, newIndex)
-				if err != nil {
-					return err
-				}
-				newNode.value = newVal
-				curr.down = append(curr.down, newNode)
-				p.json, err = Insert(p.json, newIndex, newVal, path...)
-				if err != nil {
-					return err
-				}
-				err = newNode.insert(curr, newIndex)
-				if err != nil {
-					return err
-				}
-				newNode.up = curr
-				return nil
-			}
-			return errArrayExpected()
-		}
-		return errBadJSON(0)
-	}
-	curr, err = p.core.walk(path)
+	json, err := Insert(p.json, newIndex, newVal, path...)
 	if err != nil {
 		return err
 	}
-	if len(json) >= 2 {
-		if json[0] == 91 && json[len(json)-1] == 93 {
-			if lenv >= 2 {
-				if newVal[0] == 91 || newVal[0] == 123 {
-					newNode := createNode(nil)
-					pCore(newVal, newNode)
-					err = newNode.insert(curr, newIndex)
-					if err != nil {
-						return err
-					}
-					newNode.value = newVal
-					curr.down = append(curr.down, newNode)
-					newNode.up = curr
-					p.json, err = Insert(p.json, newIndex, newVal, path...)
-					if err != nil {
-						return err
-					}
-					for i := 0; i < lenp; i++ {
-						newNode = newNode.up
-						newNode.value, err = Get(p.json, path[:lenp-i]...)
-						if err != nil {
-							return err
-						}
-					}
-					return nil
-				}
-			}
-			newNode := createNode(nil)
-			err = newNode.insert(curr, newIndex)
-			if err != nil {
-				return err
-			}
-			newNode.value = newVal
-			curr.down = append(curr.down, newNode)
-			newNode.up = curr
-			p.json, err = Insert(p.json, newIndex, newVal, path...)
-			if err != nil {
-				return err
-			}
-			for i := 0; i < lenp; i++ {
-				newNode = newNode.up
-				newNode.value, err = Get(p.json, path[:lenp-i]...)
-				if err != nil {
-					return err
-				}
-			}
-			return nil
-		}
-		return errArrayExpected()
+	err = makeNode(curr, strconv.Itoa(newIndex), newVal).insert(curr, newIndex)
+	if err != nil {
+		return err
 	}
-	return errBadJSON(0)
+	return p.update(json, path)
 }
 
 // AddKeyValueString is a variation of AddKeyValue() func.
diff --git a/parse_delete.go b/parse_delete.go
index 726979c..80e3cd9 100755
--- a/parse_delete.go
+++ b/parse_delete.go
@@ -14,17 +14,10 @@ func (p *Parser) Delete(path ...string) error {
 	if err != nil {
 		return err
 	}
-	curr.deAttach()
-	p.json, err = Delete(p.json, path...)
+	json, err := Delete(p.json, path...)
 	if err != nil {
 		return err
 	}
-	for i := 0; i < lenp-1; i++ {
-		curr = curr.up
-		curr.value, err = Get(p.json, path[:lenp-i-1]...)
-		if err != nil {
-			return err
-		}
-	}
-	return nil
+	curr.deAttach()
+	return p.update(json, path[:lenp-1])
 }
diff --git a/parse_set.go b/parse_set.go
index d257432..bc33ba8 100755
--- a/parse_set.go
+++ b/parse_set.go
@@ -8,7 +8,6 @@ import "strconv"
 // otherwise it will provide an error message.
 func (p *Parser) Set(newVal []byte, path ...string) error {
 	lenp := len(path)
-	lenv := len(newVal)
 	var curr *node
 	var err error
 	if lenp == 0 {
@@ -18,42 +17,19 @@ func (p *Parser) Set(newVal []byte, path ...string) error {
 	if err != nil {
 		return err
 	}
-	if lenv >= 2 {
-		if newVal[0] == 91 || newVal[0] == 123 {
-			newCore := createNode(nil)
-			pCore(newVal, newCore)
-			newCore.label = curr.label
-			newCore.up = curr.up
-			index := curr.getIndex()
-			curr.up.down[index] = newCore
-			newCore.value = newVal
-			p.json, _ = Set(p.json, newVal, path...)
-			for i := 0; i < lenp-1; i++ {
-				newCore = newCore.up
-				newCore.value, err = Get(p.json, path[:lenp-1-i]...)
-				if err != nil {
-					return err
-				}
-			}
-			return nil
-		}
-	}
-	curr.value = newVal
-	p.json, _ = Set(p.json, newVal, path...)
-	for i := 0; i < lenp-1; i++ {
-		curr = curr.up
-		curr.value, err = Get(p.json, path[:lenp-1-i]...)
-		if err != nil {
-			return err
-		}
+	json, err := Set(p.json, newVal, path...)
+	if err != nil {
+		return err
 	}
-	return nil
+	curr.up.down[curr.getIndex()] = makeNode(curr.up, curr.label, newVal)
+	return p.update(json, path[:lenp-1])
 }
 
 // SetString is a variation of Set() func.
 // SetString takes the set value as string.
 func (p *Parser) SetString(newValue string, path ...string) error {
-	if newValue[0] != 34 && newValue[len(newValue)-1] != 34 {
+	lenv := len(newValue)
+	if lenv < 2 || newValue[0] != 34 || newValue[lenv-1] != 34 {
 		return p.Set([]byte(`"`+newValue+`"`), path...)
 	}
 	return p.Set([]byte(newValue), path...)
@@ -99,19 +75,10 @@ func (p *Parser) SetKey(newKey string, path ...string) error {
 	if err != nil {
 		return err
 	}
-	for _, d := range curr.up.down {
-		if d.label == newKey {
-			return errKeyAlreadyExist(newKey)
-		}
+	json, err := SetKey(p.json, newKey, path...)
+	if err != nil {
+		return err
 	}
 	curr.label = newKey
-	p.json, _ = SetKey(p.json, newKey, path...)
-	for i := 0; i < lenp-1; i++ {
-		curr = curr.up
-		curr.value, _ = Get(p.json, path[:lenp-1-i]...)
-		if err != nil {
-			return err
-		}
-	}
-	return nil
+	return p.update(json, path[:lenp-1])
 }
diff --git a/parse_utils.go b/parse_utils.go
index 0bdd206..2255cbb 100755
--- a/parse_utils.go
+++ b/parse_utils.go
@@ -25,6 +25,55 @@ func createNode(up *node) *node {
 	return &Node
 }
 
+// makeNode creates a node, with its sub nodes if the value is an object or an array.
+func makeNode(up *node, label string, value []byte) *node {
+	newNode := createNode(nil)
+	if startsWithBrace(value) {
+		value = cleanValue(value)
+		newCore := createNode(nil)
+		if pCore(value, newCore) == nil && len(newCore.down) != 0 {
+			newNode = newCore.down[0]
+		}
+	}
+	newNode.up = up
+	newNode.label = label
+	newNode.value = value
+	return newNode
+}
+
+// update sets the new json and refreshes the values of every node on the path.
+func (p *Parser) update(json []byte, path []string) error {
+	p.json = json
+	curr := p.core
+	curr.value = cleanValue(json)
+	for i := range path {
+		var err error
+		curr, err = curr.walk(path[i : i+1])
+		if err != nil {
+			return err
+		}
+		curr.value, err = Get(p.json, path[:i+1]...)
+		if err != nil {
+			return err
+		}
+	}
+	return nil
+}
+
+// isArray reports whether node is an array.
+func (n *node) isArray() bool {
+	return len(n.value) != 0 && n.value[0] == 91
+}
+
+// relabel renames sub nodes of an array with their current indexes.
+func (n *node) relabel() {
+	if n.isArray() {
+		for i, d := range n.down {
+			d.label = strconv.Itoa(i)
+		}
+	}
+}
+
 func packKeyValue(label string, value []byte) []byte {
 	byteOutput := make([]byte, 0, 16)
 	byteOutput = append(byteOutput, 34)
@@ -83,18 +132,15 @@ func Parse(json []byte) (*Parser, error) {
 
 func (n *node) insert(up *node, index int) error {
 	lend := len(up.down)
-	if lend != 0 {
-		if lend-1 < index {
-			return errIndexOutOfRange()
-		}
-		for i := index; i < lend; i++ {
-			up.down[i].label = strconv.Itoa(i + 1)
-		}
-		n.label = strconv.Itoa(index)
-		n.up = up
-		return nil
+	if index < 0 || lend-1 < index {
+		return errIndexOutOfRange()
 	}
-	return errIndexOutOfRange()
+	up.down = append(up.down, nil)
+	copy(up.down[index+1:], up.down[index:])
+	up.down[index] = n
+	n.up = up
+	up.relabel()
+	return nil
 }
 
 func (n *node) deAttach() {
@@ -105,6 +151,7 @@ func (n *node) deAttach() {
 		}
 	}
 	n.up.down = newDown
+	n.up.relabel()
 }
 
 func (n *node) walk(path []string) (*node, error) {
@@ -115,6 +162,12 @@ func (n *node) walk(path []string) (*node, error) {
 				goto cont
 			}
 		}
+		if n.isArray() && len(n.down) != 0 {
+			if _, err := strconv.Atoi(p); err != nil {
+				return nil, errIndexExpected()
+			}
+			return nil, errIndexOutOfRange()
+		}
 		return nil, errKeyNotFound(p)
 	cont:
 		continue
-- 
2.43.0


From 7ba1a2e4fd65980d9ae67c9b622d4453112e1628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:29 +0000
Subject: [PATCH 09/16] fix: builders on empty and float lists, number texts,
 Scheme key lists and MutateJson values

---
 make.go  | 69 ++++++++++++++++++++++-------------------------------
 utils.go | 72 ++++++++++++++++++++++++++++++++++++++++++--------------
 2 files changed, 82 insertions(+), 59 deletions(-)

diff --git a/make.go b/make.go
index 15dd856..40e4109 100755
--- a/make.go
+++ b/make.go
@@ -18,7 +18,7 @@ type Scheme struct {
 // It needs key(s) for create JSON.
 // More information on Type Scheme example.
 func MakeScheme(keys ...string) *Scheme {
-	return &Scheme{keys: keys, originalKeys: keys}
+	return &Scheme{keys: copyKeys(keys), originalKeys: copyKeys(keys)}
 }
 
 // MakeJson is main creation method for creating JSON's from Schemes.
@@ -36,16 +36,16 @@ func (s *Scheme) MakeJsonString(values ...string) []byte {
 // MutateJson use for mutating a json to another json with a scheme.
 func (s *Scheme) MutateJson(json []byte) ([]byte, error) {
 	newJson := []byte(`{}`)
-	var err, err2 error
-	var val string
+	var err error
+	var val []byte
 	for _, k := range s.keys {
-		val, err = GetString(json, k)
-		val = formatType(val)
-		newJson, err2 = AddKeyValueString(newJson, k, val)
-		if err == nil {
-			if err2 != nil {
-				return nil, err
-			}
+		val, err = getRaw(json, k)
+		if err != nil {
+			val = []byte(`""`)
+		}
+		newJson, err = AddKeyValue(newJson, k, val)
+		if err != nil {
+			return nil, err
 		}
 	}
 	return newJson, nil
@@ -55,14 +55,13 @@ func (s *Scheme) MutateJson(json []byte) ([]byte, error) {
 func (s *Scheme) MutateJsonAbs(json []byte) ([]byte, error) {
 	newJson := []byte(`{}`)
 	var err error
-	var val string
+	var val []byte
 	for _, k := range s.keys {
-		val, err = GetString(json, k)
+		val, err = getRaw(json, k)
 		if err != nil {
 			return nil, err
 		}
-		val = formatType(val)
-		newJson, err = AddKeyValueString(newJson, k, val)
+		newJson, err = AddKeyValue(newJson, k, val)
 		if err != nil {
 			return nil, err
 		}
@@ -84,7 +83,7 @@ func (s *Scheme) Check(json []byte) bool {
 // CheckAbs checks the json is absolutely fitting the scheme or not
 func (s *Scheme) CheckAbs(json []byte) bool {
 	keys, err := GetKeys(json)
-	if err != nil {
+	if err != nil && !ErrEqual(err, ErrCodeEmpty) {
 		return false
 	}
 	if len(keys) != len(s.keys) {
@@ -139,25 +138,25 @@ func (s *Scheme) Remove(key string) bool {
 // Save saves current keys for protect them temporary changes.
 // More information on Type Scheme example.
 func (s *Scheme) Save() {
-	s.originalKeys = s.keys
+	s.originalKeys = copyKeys(s.keys)
 }
 
 // Restore Schemes original form.
 // More information on Type Scheme example.
 func (s *Scheme) Restore() {
-	s.keys = s.originalKeys
+	s.keys = copyKeys(s.originalKeys)
 }
 
 // GetOriginalKeys is a simple get function for get Schemes original keys.
 // More information on Type Scheme example.
 func (s *Scheme) GetOriginalKeys() []string {
-	return s.originalKeys
+	return copyKeys(s.originalKeys)
 }
 
 // GetCurrentKeys is a simple get function for get Schemes current keys.
 // More information on Type Scheme example.
 func (s *Scheme) GetCurrentKeys() []string {
-	return s.keys
+	return copyKeys(s.keys)
 }
 
 // MakeEmptyArray simply creates "[]" this as byte slice.
@@ -169,7 +168,7 @@ func MakeEmptyArray() []byte {
 // Do not use any slice/array for parameter.
 // It will accept this kind types but won't be able to make valid representation for use!
 func MakeArray(elements ...interface{}) []byte {
-	if elements == nil {
+	if len(elements) == 0 {
 		return []byte{91, 93}
 	}
 	js := make([]byte, 0, 128)
@@ -187,7 +186,7 @@ func MakeArray(elements ...interface{}) []byte {
 // Parameter type must be slice of string.
 // For more information look MakeArray() function.
 func MakeArrayString(values []string) []byte {
-	if values == nil {
+	if len(values) == 0 {
 		return []byte(`[]`)
 	}
 	js := make([]byte, 0, 128)
@@ -205,7 +204,7 @@ func MakeArrayString(values []string) []byte {
 // Parameter type must be slice of integer.
 // For more information look MakeArray() function.
 func MakeArrayInt(values []int) []byte {
-	if values == nil {
+	if len(values) == 0 {
 		return []byte{91, 93}
 	}
 	js := make([]byte, 0, 128)
@@ -223,7 +222,7 @@ func MakeArrayInt(values []int) []byte {
 // Parameter type must be slice of boolean.
 // For more information look MakeArray() function.
 func MakeArrayBool(values []bool) []byte {
-	if values == nil {
+	if len(values) == 0 {
 		return []byte{91, 93}
 	}
 	js := make([]byte, 0, 128)
@@ -249,25 +248,13 @@ func MakeArrayBool(values []bool) []byte {
 // Parameter type must be slice of float64.
 // For more information look MakeArray() function.
 func MakeArrayFloat(values []float64) []byte {
-	if values == nil {
+	if len(values) == 0 {
 		return []byte{91, 93}
 	}
 	js := make([]byte, 0, 128)
 	js = append(js, 91)
 	for _, v := range values {
-		num := strconv.FormatFloat(v, 'f', -1, 64)
-		start := 0
-		for i := 0; i < len(num); i++ {
-			if num[i] == 'e' {
-				start = i
-			}
-		}
-		exp, _ := strconv.Atoi(num[start+2:])
-		if exp == 0 {
-			js = append(js, []byte(num[:start])...)
-		} else {
-			js = append(js, []byte(num)...)
-		}
+		js = append(js, []byte(strconv.FormatFloat(v, 'f', -1, 64))...)
 		js = append(js, 44)
 	}
 	js = js[:len(js)-1]
@@ -279,7 +266,7 @@ func MakeArrayFloat(values []float64) []byte {
 // Parameter type must be slice of byte.
 // For more information look MakeArray() function.
 func MakeArrayBytes(values ...[]byte) []byte {
-	if values == nil {
+	if len(values) == 0 {
 		return []byte{91, 93}
 	}
 	js := make([]byte, 0, 128)
@@ -305,7 +292,7 @@ func MakeJson(keys []string, values []interface{}) []byte {
 	if len(keys) != len(values) {
 		return nil
 	}
-	if keys == nil {
+	if len(keys) == 0 {
 		return []byte{123, 125}
 	}
 	js := make([]byte, 0, 128)
@@ -328,7 +315,7 @@ func MakeJsonString(keys, values []string) []byte {
 	if len(keys) != len(values) {
 		return nil
 	}
-	if keys == nil {
+	if len(keys) == 0 {
 		return []byte{123, 125}
 	}
 	js := make([]byte, 0, 128)
@@ -348,7 +335,7 @@ func MakeJsonString(keys, values []string) []byte {
 
 // MakeJsonWithMap creates an JSON formation from given string-string-map, and returns them as byte slice.
 func MakeJsonWithMap(json map[string]string) []byte {
-	if json == nil {
+	if len(json) == 0 {
 		return []byte{123, 125}
 	}
 	js := make([]byte, 0, 128)
diff --git a/utils.go b/utils.go
index 43c100d..317eb88 100755
--- a/utils.go
+++ b/utils.go
@@ -1,9 +1,6 @@
 package jin
 
-import (
-	"strconv"
-	"unsafe"
-)
+import "unsafe"
 
 func replace(json, newValue []byte, start, end int) []byte {
 	newJSON := make([]byte, 0, len(json)-end+start+len(newValue))
@@ -97,13 +94,7 @@ func formatType(val string) string {
 	if isBool(val) {
 		return val
 	}
-	if isInt(val) {
-		if val[0] == 48 && len(val) > 1 {
-			return `"` + val + `"`
-		}
-		return val
-	}
-	if isFloat(val) {
+	if isNumber(val) {
 		return val
 	}
 	if val == "null" {
@@ -112,7 +103,7 @@ func formatType(val string) string {
 	start := val[0]
 	end := val[len(val)-1]
 	// if its starts with `"` and ends with `"`  return it self
-	if start == 34 && end == 34 {
+	if start == 34 && end == 34 && len(val) > 1 {
 		return val
 	}
 	// if its starts with `[` and ends with `]` return it self
@@ -130,14 +121,59 @@ func isBool(val string) bool {
 	return val == "true" || val == "false"
 }
 
-func isFloat(val string) bool {
-	_, err := strconv.ParseFloat(val, 64)
-	return err == nil
+// isNumber reports whether value is a number of the JSON grammar.
+// forms like '+1', '.5', '007', '0x1F', 'NaN' or 'Inf' are not.
+func isNumber(val string) bool {
+	i := 0
+	digits := func() bool {
+		start := i
+		for i < len(val) && val[i] >= '0' && val[i] <= '9' {
+			i++
+		}
+		return i > start
+	}
+	if i < len(val) && val[i] == '-' {
+		i++
+	}
+	if i < len(val) && val[i] == '0' {
+		i++
+	} else if !digits() {
+		return false
+	}
+	if i < len(val) && val[i] == '.' {
+		i++
+		if !digits() {
+			return false
+		}
+	}
+	if i < len(val) && (val[i] == 'e' || val[i] == 'E') {
+		i++
+		if i < len(val) && (val[i] == '+' || val[i] == '-') {
+			i++
+		}
+		if !digits() {
+			return false
+		}
+	}
+	return i == len(val)
+}
+
+// copyKeys returns a copy of the key list.
+func copyKeys(keys []string) []string {
+	return append([]string(nil), keys...)
 }
 
-func isInt(val string) bool {
-	_, err := strconv.ParseInt(val, 10, 32)
-	return err == nil
+// getRaw returns the value that path has pointed as it is written in json.
+// unlike Get() it does not strip the quotation marks.
+func getRaw(json []byte, path ...string) ([]byte, error) {
+	_, start, end, err := core(json, false, path...)
+	if err != nil {
+		return nil, err
+	}
+	if json[start-1] == 34 && json[end] == 34 {
+		return json[start-1 : end+1], nil
+	}
+	return json[start:end], nil
 }
 
 func cleanValueString(str string) string {
-- 
2.43.0


From 9ebd80158e62f50a4563dddb8fb30a5742fcaf7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:00 +0000
Subject: [PATCH 10/16] fix: Indent misreads escapes and panics on a leading
 quote

---
 others.go | 12 +++++++++---
 utils.go  |  3 +++
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/others.go b/others.go
index 7bd54b6..5661746 100755
--- a/others.go
+++ b/others.go
@@ -106,11 +106,17 @@ func Indent(json []byte) []byte {
 	level := 0
 	for i := 0; i < len(json); i++ {
 		curr := json[i]
-		if curr == 34 {
+		if curr == 92 {
+			// escaped char never opens or closes a string.
 			newJSON = append(newJSON, curr)
-			if json[i-1] == 92 {
-				continue
+			if i+1 < len(json) {
+				newJSON = append(newJSON, json[i+1])
 			}
+			i++
+			continue
+		}
+		if curr == 34 {
+			newJSON = append(newJSON, curr)
 			inQuote = !inQuote
 			continue
 		}
diff --git a/utils.go b/utils.go
index 317eb88..dcd5b42 100755
--- a/utils.go
+++ b/utils.go
@@ -70,6 +70,9 @@ func joinPath(path []string, last string) []string {
 }
 
 func createTabs(n int) []byte {
+	if n < 0 {
+		n = 0
+	}
 	res := make([]byte, n)
 	for i := range res {
 		res[i] = 9
-- 
2.43.0


From ccfa2433ec75d063e50de2391119ffa6eb6e5c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:00 +0000
Subject: [PATCH 11/16] fix: SetKey reports an existing key with its error code

---
 inter_set.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/inter_set.go b/inter_set.go
index 5070a9c..f73aeee 100755
--- a/inter_set.go
+++ b/inter_set.go
@@ -63,6 +63,17 @@ func SetKey(json []byte, newKey string, path ...string) ([]byte, error) {
 	var err error
 	var keyStart int
 	var start int
+	_, _, _, err = core(json, false, path...)
+	if err != nil {
+		return json, err
+	}
+	obj, err := IsObject(json, path[:len(path)-1]...)
+	if err != nil {
+		return json, err
+	}
+	if !obj {
+		return json, errObjectExpected()
+	}
 	newPath := make([]string, len(path))
 	copy(newPath, path[:len(path)-1])
 	newPath[len(newPath)-1] = newKey
@@ -86,7 +97,7 @@ func SetKey(json []byte, newKey string, path ...string) ([]byte, error) {
 		}
 		return json, err
 	}
-	return json, errBadJSON(keyStart)
+	return json, errKeyAlreadyExist(newKey)
 }
 
 // Store sets or adds a new value to the body
-- 
2.43.0


From 67af98b64589107ee6fdaed4179c36cabb7c57df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:00 +0000
Subject: [PATCH 12/16] fix: ErrEqual recognises errors without a code

---
 errors.go | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/errors.go b/errors.go
index 06f7350..20325d6 100755
--- a/errors.go
+++ b/errors.go
@@ -2,7 +2,7 @@ package jin
 
 import (
 	"fmt"
-	"strconv"
+	"strings"
 )
 
 const (
@@ -30,16 +30,7 @@ func ErrEqual(err error, code int) bool {
 	if err == nil {
 		return false
 	}
-	str := err.Error()
-	if len(str) < 2 {
-		return false
-	}
-	codeStr := str[len(str)-2:]
-	c, err := strconv.Atoi(codeStr)
-	if err != nil {
-		return false
-	}
-	return c == code
+	return strings.HasSuffix(err.Error(), fmt.Sprintf("error_code: %02d", code))
 }
 
 // errNullPath "error: path cannot be null error_code:00"
-- 
2.43.0


From 7621a8a47864cbe68b3bbb2fe17b04414823f4a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:38 +0000
Subject: [PATCH 13/16] fix: panics on malformed text in core, Delete, Insert,
 key listings, iteration and the Parser

---
 inter_add.go    | 3 +++
 inter_core.go   | 6 +++---
 inter_delete.go | 3 +++
 inter_get.go    | 6 ++++++
 inter_iter.go   | 6 ++++++
 parse_utils.go  | 3 +++
 6 files changed, 24 insertions(+), 3 deletions(-)

diff --git a/inter_add.go b/inter_add.go
index 98723eb..ce9a62e 100755
--- a/inter_add.go
+++ b/inter_add.go
@@ -199,6 +199,9 @@ func Insert(json []byte, index int, value []byte, path ...string) ([]byte, error
 	if err != nil {
 		return json, err
 	}
+	if start < 1 || end >= len(json) {
+		return json, errBadJSON(start)
+	}
 	if json[start-1] == 34 {
 		start--
 	}
diff --git a/inter_core.go b/inter_core.go
index 2ac96d7..0793a35 100755
--- a/inter_core.go
+++ b/inter_core.go
@@ -33,7 +33,7 @@ func core(json []byte, justStart bool, path ...string) (int, int, int, error) {
 	// trim spaces of start
 	for space(json[offset]) {
 		// json length overflow control
-		if offset > len(json)-1 {
+		if offset > len(json)-2 {
 			return -1, -1, -1, errBadJSON(offset)
 		}
 		offset++
@@ -403,13 +403,13 @@ func core(json []byte, justStart bool, path ...string) (int, int, int, error) {
 	}
 	// this means not search operation has take place
 	// it must be some kinda error or bad format
-	if offset == 0 {
+	if offset == 0 || offset >= len(json) {
 		return -1, -1, -1, errBadJSON(0)
 	}
 	// skip spaces from top.
 	for space(json[offset]) {
 		// json length overflow control
-		if offset > len(json)-1 {
+		if offset > len(json)-2 {
 			return -1, -1, -1, errBadJSON(offset)
 		}
 		offset++
diff --git a/inter_delete.go b/inter_delete.go
index c96ffd5..bba6363 100755
--- a/inter_delete.go
+++ b/inter_delete.go
@@ -18,6 +18,9 @@ func Delete(json []byte, path ...string) ([]byte, error) {
 	} else {
 		start = ks - 1
 	}
+	if start < 1 || e >= len(json) {
+		return json, errBadJSON(start)
+	}
 	if json[start-1] == 34 {
 		start--
 	}
diff --git a/inter_get.go b/inter_get.go
index 023ff35..0b750e6 100755
--- a/inter_get.go
+++ b/inter_get.go
@@ -412,6 +412,9 @@ func GetKeys(json []byte, path ...string) ([]string, error) {
 				}
 				if curr == 58 {
 					if level == 1 {
+						if keyEnd <= keyStart {
+							return nil, errBadJSON(i)
+						}
 						key := json[keyStart+1 : keyEnd]
 						keys = append(keys, string(key))
 					}
@@ -612,6 +615,9 @@ func GetKeysValues(json []byte, path ...string) ([]string, []string, error) {
 				}
 				if curr == 58 {
 					if level == 1 {
+						if keyEnd <= keyStart {
+							return nil, nil, errBadJSON(i)
+						}
 						key := json[keyStart+1 : keyEnd]
 						keys = append(keys, string(key))
 						start = i + 1
diff --git a/inter_iter.go b/inter_iter.go
index 7d748a7..ecd2270 100755
--- a/inter_iter.go
+++ b/inter_iter.go
@@ -198,6 +198,9 @@ func IterateKeyValue(json []byte, callback func([]byte, []byte) (bool, error), p
 									break
 								}
 							}
+							if end < start {
+								return errBadJSON(start)
+							}
 							if json[start] == 34 && json[end] == 34 {
 								_, innerError := callback(key, json[start+1:end])
 								return innerError
@@ -247,6 +250,9 @@ func IterateKeyValue(json []byte, callback func([]byte, []byte) (bool, error), p
 						continue
 					}
 					if curr == 58 {
+						if keyEnd <= keyStart {
+							return errBadJSON(i)
+						}
 						key = json[keyStart+1 : keyEnd]
 						start = i + 1
 						continue
diff --git a/parse_utils.go b/parse_utils.go
index 2255cbb..4e40900 100755
--- a/parse_utils.go
+++ b/parse_utils.go
@@ -92,6 +92,9 @@ func packValue(value []byte) []byte {
 
 func (n *node) dive(bytes []byte) []byte {
 	temp := make([]byte, 0, 32)
+	if len(n.value) == 0 {
+		return bytes
+	}
 	temp = append(temp, n.value[0])
 	for _, d := range n.down {
 		val := d.value
-- 
2.43.0


From 5d589c8f49234a7088251967e1223551222b5c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:13 +0000
Subject: [PATCH 14/16] fix: empty root objects and ParseArray do not depend on
 blanks

---
 inter_get.go  |  8 ++++----
 inter_iter.go |  2 +-
 others.go     |  3 +++
 utils.go      | 15 +++++++++++++++
 4 files changed, 23 insertions(+), 5 deletions(-)

diff --git a/inter_get.go b/inter_get.go
index 0b750e6..70950e9 100755
--- a/inter_get.go
+++ b/inter_get.go
@@ -338,7 +338,7 @@ func GetKeys(json []byte, path ...string) ([]string, error) {
 	if len(json) < 2 {
 		return nil, errBadJSON(0)
 	}
-	if len(path) == 0 && string(json) == "{}" {
+	if len(path) == 0 && emptyObject(json) {
 		return nil, errEmpty()
 	}
 	var start int
@@ -434,7 +434,7 @@ func GetValues(json []byte, path ...string) ([]string, error) {
 	if len(json) < 2 {
 		return nil, errBadJSON(0)
 	}
-	if len(path) == 0 && string(json) == "{}" {
+	if len(path) == 0 && emptyObject(json) {
 		return nil, errEmpty()
 	}
 	var start int
@@ -535,7 +535,7 @@ func GetKeysValues(json []byte, path ...string) ([]string, []string, error) {
 	if len(json) < 2 {
 		return nil, nil, errBadJSON(0)
 	}
-	if len(path) == 0 && string(json) == "{}" {
+	if len(path) == 0 && emptyObject(json) {
 		return nil, nil, errEmpty()
 	}
 	var start int
@@ -640,7 +640,7 @@ func GetKeysValues(json []byte, path ...string) ([]string, []string, error) {
 
 // GetMap Gets all keys and values pair with string to string map.
 func GetMap(json []byte, path ...string) (map[string]string, error) {
-	if len(path) == 0 && (string(json) == "[]" || string(json) == "{}") {
+	if len(path) == 0 && (string(json) == "[]" || emptyObject(json)) {
 		return nil, nil
 	}
 	start, end, err := getStartEnd(json, path...)
diff --git a/inter_iter.go b/inter_iter.go
index ecd2270..a49d17c 100755
--- a/inter_iter.go
+++ b/inter_iter.go
@@ -112,7 +112,7 @@ func IterateKeyValue(json []byte, callback func([]byte, []byte) (bool, error), p
 	if len(json) < 2 {
 		return errBadJSON(0)
 	}
-	if len(path) == 0 && string(json) == "{}" {
+	if len(path) == 0 && emptyObject(json) {
 		return errEmpty()
 	}
 	var start int
diff --git a/others.go b/others.go
index 5661746..4fef508 100755
--- a/others.go
+++ b/others.go
@@ -1,5 +1,7 @@
 package jin
 
+import "strings"
+
 // Length function gives the length of any array or object
 // that path has pointed.
 func Length(json []byte, path ...string) (int, error) {
@@ -189,6 +191,7 @@ func Indent(json []byte) []byte {
 
 // ParseArray is a parse function for converting string type arrays to string slices
 func ParseArray(arr string) []string {
+	arr = strings.Trim(arr, " \t\n\r")
 	if len(arr) < 2 {
 		return []string{}
 	}
diff --git a/utils.go b/utils.go
index dcd5b42..52dc80a 100755
--- a/utils.go
+++ b/utils.go
@@ -264,3 +264,18 @@ func getStartEnd(json []byte, path ...string) (int, int, error) {
 	}
 	return start, end, nil
 }
+
+// emptyObject reports whether json is an object without members, blanks do not matter.
+func emptyObject(json []byte) bool {
+	braces := 0
+	for _, curr := range json {
+		if space(curr) {
+			continue
+		}
+		if braces > 1 || curr != byte(123+2*braces) {
+			return false
+		}
+		braces++
+	}
+	return braces == 2
+}
-- 
2.43.0


From e974b7ec0a9ce86709f1d929abbaf88a1987c2b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:57 +0000
Subject: [PATCH 15/16] fix: Parser reports a non-numeric component on an empty
 array like the interpreter

---
 parse_utils.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/parse_utils.go b/parse_utils.go
index 4e40900..f68db72 100755
--- a/parse_utils.go
+++ b/parse_utils.go
@@ -165,10 +165,13 @@ func (n *node) walk(path []string) (*node, error) {
 				goto cont
 			}
 		}
-		if n.isArray() && len(n.down) != 0 {
+		if n.isArray() {
 			if _, err := strconv.Atoi(p); err != nil {
 				return nil, errIndexExpected()
 			}
+			if len(n.down) == 0 {
+				return nil, errEmptyArray()
+			}
 			return nil, errIndexOutOfRange()
 		}
 		return nil, errKeyNotFound(p)
-- 
2.43.0


From ab4c90b98f0fe36f37be710c9065dbbb88577720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:04 +0000
Subject: [PATCH 16/16] fix: Parser nodes keep their own copy of the value they
 are given

---
 parse_utils.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parse_utils.go b/parse_utils.go
index f68db72..7e8839f 100755
--- a/parse_utils.go
+++ b/parse_utils.go
@@ -27,6 +27,8 @@ func createNode(up *node) *node {
 
 // makeNode creates a node, with its sub nodes if the value is an object or an array.
 func makeNode(up *node, label string, value []byte) *node {
+	// nodes never share the caller's value.
+	value = append(make([]byte, 0, len(value)), value...)
 	newNode := createNode(nil)
 	if startsWithBrace(value) {
 		value = cleanValue(value)
-- 
2.43.0

