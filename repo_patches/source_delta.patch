From 57505dca6b750628bc85aa5ba776bda5b94c2dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:54 +0000
Subject: [PATCH 01/84] fix: NonExpandingBuffer wrote past its end when full,
 clear() kept the old size

---
 bomba_core.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/bomba_core.hpp b/bomba_core.hpp
index dd55d41..0f659da 100644
--- a/bomba_core.hpp
+++ b/bomba_core.hpp
@@ -421,6 +421,8 @@ public:
 	GeneralisedBuffer(const BufferType& buffer) : _buffer(buffer) {}
 
 	GeneralisedBuffer& operator+=(char added) {
+		if (_buffer.empty()) [[unlikely]]
+			return *this; // Full and can't expand
 		*_buffer.begin() = added;
 		_buffer = BufferType(_buffer.begin() + 1, _buffer.end());
 		_size++;
@@ -462,6 +464,10 @@ protected:
 	void moveBuffer(const BufferType& newBuffer) {
 		_buffer = newBuffer;
 	}
+	void resetBuffer(const BufferType& newBuffer) {
+		_buffer = newBuffer;
+		_size = 0;
+	}
 	int remainingSpace() const {
 		return _buffer.size();
 	}
@@ -521,7 +527,7 @@ public:
 	}
 
 	void clear() {
-		moveBuffer({_basic.data(), _basic.size()});
+		resetBuffer({_basic.data(), _basic.size()});
 	}
 };
 
@@ -572,7 +578,7 @@ public:
 
 	void clear() {
 		_extended.resize(0);
-		moveBuffer({_basic.data(), _basic.size()});
+		resetBuffer({_basic.data(), _basic.size()});
 	}
 };
 
-- 
2.43.0


From 0d76c42a491df9d4c620f000346a50d6f3fbcee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:45 +0000
Subject: [PATCH 02/84] fix: Float16Placeholder converted back to the bit
 pattern instead of the value, corrupted zero and small numbers

---
 bomba_core.hpp | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/bomba_core.hpp b/bomba_core.hpp
index 0f659da..6566a60 100644
--- a/bomba_core.hpp
+++ b/bomba_core.hpp
@@ -93,12 +93,32 @@ auto makeRaiiContainer(Resource&& resource, Destruction&& destruction) {
 struct Float16Placeholder {
 	uint16_t data;
 	Float16Placeholder& operator=(float value) {
-		uint32_t asInt = reinterpret_cast<uint32_t&>(value);
-		data = ((asInt >> 16) & 0x8000) | ((((asInt & 0x7f800000) - 0x38000000) >> 13 ) & 0x7c00) | ((asInt >> 13) & 0x03ff);
+		uint32_t asInt = 0;
+		memcpy(&asInt, &value, sizeof(asInt));
+		uint16_t sign = (asInt >> 16) & 0x8000;
+		int exponent = int((asInt >> 23) & 0xff) - 112;
+		uint32_t mantissa = asInt & 0x7fffff;
+		if (exponent >= 0x1f) // Too large, infinity or NaN
+			data = sign | 0x7c00 | ((exponent == 0xff - 112 && mantissa) ? 0x0200 : 0);
+		else if (exponent > 0)
+			data = sign | (exponent << 10) | (mantissa >> 13);
+		else if (exponent > -11) // Subnormal
+			data = sign | ((mantissa | 0x800000) >> (14 - exponent));
+		else
+			data = sign;
 		return *this;
 	}
 	operator float() const {
-		return ((data & 0x8000) << 16) | (((data & 0x7c00) + 0x1C000) << 13) | ((data & 0x03ff) << 13);
+		int exponent = (data >> 10) & 0x1f;
+		uint32_t mantissa = data & 0x03ff;
+		float result = 0;
+		if (exponent == 0) { // Zero or subnormal
+			result = mantissa / float(1 << 24);
+			return (data & 0x8000) ? -result : result;
+		}
+		uint32_t asInt = (uint32_t(data & 0x8000) << 16) | ((exponent == 0x1f ? 0xff : exponent + 112) << 23) | (mantissa << 13);
+		memcpy(&result, &asInt, sizeof(result));
+		return result;
 	}
 };
 
-- 
2.43.0


From 783654343ad7c3a47a031e8a0cb0ca4bc4249c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:56 +0000
Subject: [PATCH 03/84] fix: No numeric flags were determined for types like
 char, long long or long double

---
 bomba_core.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/bomba_core.hpp b/bomba_core.hpp
index 6566a60..8e52c97 100644
--- a/bomba_core.hpp
+++ b/bomba_core.hpp
@@ -159,6 +159,11 @@ namespace SerialisationFlags {
 		else if constexpr(std::is_same_v<T, Float16Placeholder>) return FLOAT_16;
 		else if constexpr(std::is_same_v<T, float>) return FLOAT_32;
 		else if constexpr(std::is_same_v<T, double>) return FLOAT_64;
+		else if constexpr(std::is_floating_point_v<T>) return FLOAT_64;
+		else if constexpr(sizeof(T) == 1) return std::is_signed_v<T> ? INT_8 : UINT_8;
+		else if constexpr(sizeof(T) == 2) return std::is_signed_v<T> ? INT_16 : UINT_16;
+		else if constexpr(sizeof(T) == 4) return std::is_signed_v<T> ? INT_32 : UINT_32;
+		else return std::is_signed_v<T> ? INT_64 : UINT_64;
 	}
 
 	template <typename Functor>
-- 
2.43.0


From 8f37ab14a491f886d04e38473ccf173a563908f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:06 +0000
Subject: [PATCH 04/84] fix: The overload of serialise() that appends to an
 existing output did not compile

---
 bomba_core.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/bomba_core.hpp b/bomba_core.hpp
index 8e52c97..33271a5 100644
--- a/bomba_core.hpp
+++ b/bomba_core.hpp
@@ -672,7 +672,6 @@ struct ISerialisable {
 	void serialise(FromType& output) {
 		typename F::Output format(output);
 		serialiseInternal(format);
-		return output;
 	}
 	
 	template <DataFormat F, typename FromType>
-- 
2.43.0


From 3ff891608f617468964862e404a60f71a2812377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:18 +0000
Subject: [PATCH 05/84] fix: Deserialising std::array from a longer array left
 the rest of the elements unread

---
 bomba_core.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/bomba_core.hpp b/bomba_core.hpp
index 33271a5..55a8bc7 100644
--- a/bomba_core.hpp
+++ b/bomba_core.hpp
@@ -1044,8 +1044,13 @@ struct TypedSerialiser<std::array<T, size>> {
 
 	static void deserialiseMember(IStructuredInput& in, std::array<T, size>& value, SerialisationFlags::Flags flags) {
 		in.startReadingArray(flags);
-		for (int i = 0; i < int(size) && in.nextArrayElement(flags); i++) {
+		bool more = in.nextArrayElement(flags);
+		for (int i = 0; i < int(size) && more; i++) {
 			TypedSerialiser<T>::deserialiseMember(in, value[i], flags);
+			more = in.nextArrayElement(flags);
+		}
+		for (; more; more = in.nextArrayElement(flags)) {
+			in.skipObjectElement(flags);
 		}
 		in.endReadingArray(flags);
 	}
-- 
2.43.0


From d0e40365cf9397f4816ff7dc81349ad72ebcb877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:31 +0000
Subject: [PATCH 06/84] fix: Updating a map could store values under wrong keys

---
 bomba_core.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/bomba_core.hpp b/bomba_core.hpp
index 55a8bc7..f237222 100644
--- a/bomba_core.hpp
+++ b/bomba_core.hpp
@@ -1149,12 +1149,13 @@ struct TypedSerialiser<Map> {
 			// Manipulating a set of names that were already used would be annoying
 			Map result;
 			in.readObject(flags, [&] (std::optional<std::string_view> elementName, int) {
-				auto found = value.find(typename Map::key_type(*elementName));
+				typename Map::key_type key(*elementName); // The view may be invalidated by reading the value
+				auto found = value.find(key);
 				if (found != value.end()) {
 					TypedSerialiser<ValueType>::deserialiseMember(in, found->second, flags);
-					result[typename Map::key_type(*elementName)] = std::move(found->second);
+					result[key] = std::move(found->second);
 				} else
-					TypedSerialiser<ValueType>::deserialiseMember(in, result[typename Map::key_type(*elementName)], flags);
+					TypedSerialiser<ValueType>::deserialiseMember(in, result[key], flags);
 				return true;
 			});
 			std::swap(result, value);
-- 
2.43.0


From a5ac90ac46430e7e2909a461ace9ee39c464f2e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:16 +0000
Subject: [PATCH 07/84] fix: RPC lambdas could not be called locally without a
 client, although they are supposed to

---
 bomba_core.hpp       |  9 ++++++---
 bomba_rpc_object.hpp | 16 ++++++++--------
 2 files changed, 14 insertions(+), 11 deletions(-)

diff --git a/bomba_core.hpp b/bomba_core.hpp
index f237222..083d5b2 100644
--- a/bomba_core.hpp
+++ b/bomba_core.hpp
@@ -779,10 +779,13 @@ protected:
 		reparented->_parent = nullptr;
 		reparented->_responder = nullptr;
 	}
-	IRpcResponder* getResponder() const {
+	IRpcResponder* findResponder() const { // Returns nullptr if it's not a client
 		if (!_responder && _parent) [[unlikely]]
-			const_cast<IRpcResponder*&>(_responder) = _parent->getResponder(); // Lazy loading
-		if (!_responder) [[unlikely]]
+			const_cast<IRpcResponder*&>(_responder) = _parent->findResponder(); // Lazy loading
+		return _responder;
+	}
+	IRpcResponder* getResponder() const {
+		if (!findResponder()) [[unlikely]]
 			logicError("Calling a remote procedure while not being a client");
 		return _responder;
 	}
diff --git a/bomba_rpc_object.hpp b/bomba_rpc_object.hpp
index 13dc257..7e7f883 100644
--- a/bomba_rpc_object.hpp
+++ b/bomba_rpc_object.hpp
@@ -319,14 +319,14 @@ public:
 	Future() = default;
 
 	void get() const {
-		if (_done)
+		if (_done || !Base::_responder) // No responder means it was called locally
 			return;
 		Base::_reader->readResponse(Base::_responder, Base::_token);
 		_done = true;
 	}
 
 	bool is_ready() const {
-		if (_done)
+		if (_done || !Base::_responder)
 			return true;
 		return (_done = Base::_responder->hasResponse(Base::_token));
 	}
@@ -564,7 +564,7 @@ struct RpcLambdaInformationHolder {
 		using Parent::Parent;
 
 		Returned operator()(Args... args) const requires(Parent::usesParent()) {
-			IRpcResponder* responder = Parent::getResponder();
+			IRpcResponder* responder = Parent::findResponder();
 			if (responder) {
 				return Parent::readResponse(responder, Parent::sendRequest(responder, std::forward<Args>(args)...));
 			} else {
@@ -572,7 +572,7 @@ struct RpcLambdaInformationHolder {
 			}
 		}
 		Returned operator()(FirstArg first, Args... args) const requires(!Parent::usesParent()) {
-			IRpcResponder* responder = Parent::getResponder();
+			IRpcResponder* responder = Parent::findResponder();
 			if (responder) {
 				return Parent::readResponse(responder, Parent::sendRequest(responder, std::forward<FirstArg>(first), std::forward<Args>(args)...));
 			} else {
@@ -581,7 +581,7 @@ struct RpcLambdaInformationHolder {
 		}
 
 		Future<Returned> async(Args... args) const requires(Parent::usesParent()) {
-			IRpcResponder* responder = Parent::getResponder();
+			IRpcResponder* responder = Parent::findResponder();
 			if (responder) {
 				RequestToken token = Parent::sendRequest(responder, std::forward<Args>(args)...);
 				return Future<Returned>(this, responder, token);
@@ -590,7 +590,7 @@ struct RpcLambdaInformationHolder {
 			}
 		}
 		Future<Returned> async(FirstArg first, Args... args) const requires(!Parent::usesParent()) {
-			IRpcResponder* responder = Parent::getResponder();
+			IRpcResponder* responder = Parent::findResponder();
 			if (responder) {
 				RequestToken token = Parent::sendRequest(responder, std::forward<FirstArg>(first), std::forward<Args>(args)...);
 				return Future<Returned>(this, responder, token);
@@ -608,7 +608,7 @@ struct RpcLambdaInformationHolder {
 		using Parent::Parent;
 
 		Returned operator()() const {
-			IRpcResponder* responder = Parent::getResponder();
+			IRpcResponder* responder = Parent::findResponder();
 			if (responder) {
 				return Parent::readResponse(responder, Parent::sendRequest(responder));
 			} else {
@@ -617,7 +617,7 @@ struct RpcLambdaInformationHolder {
 		}
 
 		Future<Returned> async() const {
-			IRpcResponder* responder = Parent::getResponder();
+			IRpcResponder* responder = Parent::findResponder();
 			if (responder) {
 				RequestToken token = Parent::sendRequest(responder);
 				return Future<Returned>(this, responder, token);
-- 
2.43.0


From d958b4e61c6dc91f7914fb743cf3f5e71bac47b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:29 +0000
Subject: [PATCH 08/84] fix: Future<void>::get() did not report failure if
 is_ready() was called before it

---
 bomba_rpc_object.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bomba_rpc_object.hpp b/bomba_rpc_object.hpp
index 7e7f883..3698204 100644
--- a/bomba_rpc_object.hpp
+++ b/bomba_rpc_object.hpp
@@ -328,7 +328,7 @@ public:
 	bool is_ready() const {
 		if (_done || !Base::_responder)
 			return true;
-		return (_done = Base::_responder->hasResponse(Base::_token));
+		return Base::_responder->hasResponse(Base::_token); // Only get() can find out if it was successful
 	}
 };
 
-- 
2.43.0


From f05bdd462dc45f66a671d51915399f4bd1ff2874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:40 +0000
Subject: [PATCH 09/84] fix: Destroying or reassigning a future whose call
 failed terminated the program

---
 bomba_rpc_object.hpp | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/bomba_rpc_object.hpp b/bomba_rpc_object.hpp
index 3698204..18e0337 100644
--- a/bomba_rpc_object.hpp
+++ b/bomba_rpc_object.hpp
@@ -272,14 +272,21 @@ struct IResponseReader {
 template <typename Returned>
 class Future : Detail::FutureBase<Returned> {
 	mutable std::optional<Returned> _value = std::nullopt;
+	mutable bool _requested = false; // There is only one response, it must not be awaited again if reading it failed
 	using Base = Detail::FutureBase<Returned>;
 
 	void cleanup() {
-		if (Base::_responder && !_value) {
-			get();
-			Base::_reader = nullptr;
-			_value = std::nullopt;
+		if (Base::_responder && !_requested) {
+			try {
+				get();
+			} catch (...) {
+				// Nobody is interested in the result, even less in the error
+			}
 		}
+		Base::_reader = nullptr;
+		Base::_responder = nullptr;
+		_value = std::nullopt;
+		_requested = false;
 	}
 public:
 	using Base::FutureBase;
@@ -290,12 +297,17 @@ public:
 		std::swap(Base::_responder, other._responder);
 		std::swap(Base::_token, other._token);
 		std::swap(_value, other._value);
+		std::swap(_requested, other._requested);
 		return *this;
 	}
 
 	Returned get() const {
-		if (!_value)
+		if (!_value) {
+			if (_requested || !Base::_responder)
+				logicError("Future has no value");
+			_requested = true;
 			_value = Base::_reader->readResponse(Base::_responder, Base::_token);
+		}
 		return *_value;
 	}
 
-- 
2.43.0


From ccc6be698923fe30deaabf5ed81e5c035d91f357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:01 +0000
Subject: [PATCH 10/84] fix: JSON strings with control characters were not
 escaped correctly and most escape sequences were dropped when read

---
 bomba_json.hpp | 88 ++++++++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 82 insertions(+), 6 deletions(-)

diff --git a/bomba_json.hpp b/bomba_json.hpp
index 8761feb..d03cd2d 100644
--- a/bomba_json.hpp
+++ b/bomba_json.hpp
@@ -66,6 +66,54 @@ struct BasicJson {
 			}
 		}
 		
+		uint32_t readHexadecimal() {
+			uint32_t result = 0;
+			for (int i = 0; i < 4; i++) {
+				char digit = getChar();
+				result <<= 4;
+				if (digit >= '0' && digit <= '9')
+					result += digit - '0';
+				else if (digit >= 'a' && digit <= 'f')
+					result += digit - 'a' + 10;
+				else if (digit >= 'A' && digit <= 'F')
+					result += digit - 'A' + 10;
+				else
+					fail("Wrong unicode escape sequence in JSON string");
+			}
+			return result;
+		}
+
+		void readUnicodeEscape() {
+			uint32_t value = readHexadecimal();
+			if (value >= 0xd800 && value < 0xdc00 && _contents.substr(_position, 2) == "\\u") {
+				auto afterFirst = _position;
+				_position += 2;
+				uint32_t second = readHexadecimal();
+				if (second >= 0xdc00 && second < 0xe000)
+					value = 0x10000 + ((value - 0xd800) << 10) + (second - 0xdc00);
+				else
+					_position = afterFirst; // Not a surrogate pair
+			}
+			if (value >= 0xd800 && value < 0xe000)
+				value = 0xfffd; // Lone surrogates can't be represented
+			if (value < 0x80) {
+				_resultBuffer += char(value);
+				return;
+			}
+			if (value < 0x800) {
+				_resultBuffer += char(0xc0 | (value >> 6));
+			} else {
+				if (value < 0x10000) {
+					_resultBuffer += char(0xe0 | (value >> 12));
+				} else {
+					_resultBuffer += char(0xf0 | (value >> 18));
+					_resultBuffer += char(0x80 | ((value >> 12) & 0x3f));
+				}
+				_resultBuffer += char(0x80 | ((value >> 6) & 0x3f));
+			}
+			_resultBuffer += char(0x80 | (value & 0x3f));
+		}
+
 	public:
 		Input(std::string_view contents) : _contents(contents) {}
 		
@@ -136,12 +184,22 @@ struct BasicJson {
 			while (readingChar != '"') {
 				if (readingChar == '\\') [[unlikely]] {
 					readingChar = getChar();
-					if (readingChar == '\\')
-						_resultBuffer += '\\';
-					else if (readingChar == '"')
-						_resultBuffer += '"';
+					if (readingChar == '\\' || readingChar == '"' || readingChar == '/')
+						_resultBuffer += readingChar;
 					else if (readingChar == 'n')
 						_resultBuffer += '\n';
+					else if (readingChar == 't')
+						_resultBuffer += '\t';
+					else if (readingChar == 'r')
+						_resultBuffer += '\r';
+					else if (readingChar == 'b')
+						_resultBuffer += '\b';
+					else if (readingChar == 'f')
+						_resultBuffer += '\f';
+					else if (readingChar == 'u')
+						readUnicodeEscape();
+					else
+						fail("Unknown escape sequence in JSON string");
 				} else _resultBuffer += readingChar;
 				readingChar = getChar();
 			}
@@ -280,6 +338,20 @@ struct BasicJson {
 			for (int i = 0; i < _depth; i++)
 				_contents += '\t';
 		}
+		void writeControlCharacter(char written) {
+			_contents += '\\';
+			switch (written) {
+				case '\n': _contents += 'n'; break;
+				case '\t': _contents += 't'; break;
+				case '\r': _contents += 'r'; break;
+				case '\b': _contents += 'b'; break;
+				case '\f': _contents += 'f'; break;
+				default:
+					_contents += "u00";
+					_contents += (written & 0x10) ? '1' : '0';
+					_contents += "0123456789abcdef"[written & 0x0f];
+			}
+		}
 	public:
 		Output(OutputStringType& contents) : _contents(contents) {}
 		
@@ -292,9 +364,13 @@ struct BasicJson {
 		void writeString(Flags flags, std::string_view value) final override {
 			_contents += '"';
 			for (const char it : value) {
-				if (it == '\\' || it == '\n' || it == '"') [[unlikely]]
+				if (it == '\\' || it == '"') [[unlikely]] {
 					_contents += '\\';
-				_contents += it;
+					_contents += it;
+				} else if (it >= 0 && it < 0x20) [[unlikely]]
+					writeControlCharacter(it);
+				else
+					_contents += it;
 			}
 			_contents += '"';
 		}
-- 
2.43.0


From 8f3cd4cc2b0a7dc3a89bd17cc3825aec642c08ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:12 +0000
Subject: [PATCH 11/84] fix: Skipping JSON values consumed the end of the
 enclosing object or got lost in escaped strings

---
 bomba_json.hpp | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/bomba_json.hpp b/bomba_json.hpp
index d03cd2d..83cea4f 100644
--- a/bomba_json.hpp
+++ b/bomba_json.hpp
@@ -275,27 +275,31 @@ struct BasicJson {
 			eatWhitespace();
 			int depth = 0;
 			do {
-				char readingChar = peekChar();
+				char readingChar = getChar();
 				if (readingChar == '{' || readingChar == '[') {
 					depth++;
-					getChar();
 				} else if (readingChar == '}' || readingChar == ']') {
+					if (depth == 0)
+						fail("Expected JSON value");
 					depth--;
-					getChar();
-					if (depth <= 0)
-						break;
-				} else if (depth == 0 && (readingChar == ' ' || readingChar == '\t'
-						|| readingChar == '\r' || readingChar == '\n' || readingChar == ',')) {
-					break; // eatWhitespace() was called before
 				} else if (readingChar == '"') {
-					getChar();
 					do {
 						readingChar = getChar();
-					} while (readingChar != '"' && _contents[_position - 1] != '\\');
+						if (readingChar == '\\')
+							getChar(); // Skip the escaped character
+					} while (readingChar != '"' && good);
 				} else { // Numbers, bool, null...
-					getChar();
+					readingChar = peekChar<false>();
+					while (_contents.begin() + _position < _contents.end() && readingChar != ' ' && readingChar != '\t'
+							&& readingChar != '\r' && readingChar != '\n' && readingChar != ',' && readingChar != ':'
+							&& readingChar != '}' && readingChar != ']') {
+						_position++;
+						readingChar = peekChar<false>();
+					}
 				}
-			} while (_contents.begin() + _position < _contents.end());
+				if (depth > 0)
+					eatWhitespace();
+			} while (depth > 0 && good);
 		}
 
 		bool readOptional(Flags flags, Callback<> readValue) override {
-- 
2.43.0


From c9b97dd7db01a4713f0cf6df7f16b468ee0fe42c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:24 +0000
Subject: [PATCH 12/84] fix: JSON integers at the end of input were refused and
 those with exponents were misread

---
 bomba_json.hpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/bomba_json.hpp b/bomba_json.hpp
index 83cea4f..6fc437d 100644
--- a/bomba_json.hpp
+++ b/bomba_json.hpp
@@ -149,16 +149,21 @@ struct BasicJson {
 		
 		int64_t readInt(Flags flags) final override {
 			eatWhitespace();
+			auto start = _position;
 			int64_t result = 0;
 			std::from_chars_result got = std::from_chars(&_contents[_position], &*_contents.end(), result);
 			_position += got.ptr - &_contents[_position];
 			if (got.ec != std::errc()) [[unlikely]]
 				fail("Expected JSON integer");
 			// Deal with floats sent instead of integers
-			char next = peekChar();
-			while ((next >= '0' && next <= '9') || next == '.' || next == 'e' || next == 'E' || next == '-') {
-				_position++;
-				next = peekChar();
+			char next = peekChar<false>();
+			if (next == '.' || next == 'e' || next == 'E') {
+				_position = start;
+				double asFloat = readFloat(flags);
+				if (!(asFloat >= -0x1p63 && asFloat < 0x1p63)) [[unlikely]]
+					fail("JSON integer is too large");
+				else
+					result = asFloat;
 			}
 			return result;
 		}
-- 
2.43.0


From d646301ee2a84f6b82b8318271a46009df244ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:36 +0000
Subject: [PATCH 13/84] fix: Buffer for writing numbers was too small for the
 longest ones

---
 bomba_http.hpp | 2 +-
 bomba_json.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/bomba_http.hpp b/bomba_http.hpp
index 1cb847a..c70d658 100644
--- a/bomba_http.hpp
+++ b/bomba_http.hpp
@@ -431,7 +431,7 @@ struct HtmlMessageEncoding {
 
 		template <typename Num>
 		void writeValue(Num value) {
-			constexpr int SIZE = 20;
+			constexpr int SIZE = 32; // Must fit any number and the terminating zero
 			std::array<char, SIZE> bytes = {};
 			std::to_chars(bytes.data(), bytes.data() + SIZE, value);
 			_contents += &bytes[0];
diff --git a/bomba_json.hpp b/bomba_json.hpp
index 6fc437d..1efc5eb 100644
--- a/bomba_json.hpp
+++ b/bomba_json.hpp
@@ -332,7 +332,7 @@ struct BasicJson {
 		
 		template <typename Num>
 		void writeValue(Num value) {
-			constexpr int SIZE = 20;
+			constexpr int SIZE = 32; // Must fit any number and the terminating zero
 			std::array<char, SIZE> bytes = {};
 			std::to_chars(bytes.data(), bytes.data() + SIZE, value);
 			_contents += &bytes[0];
-- 
2.43.0


From 8ae4aba0caddde0f0b37353345ba5b06bd392841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:47 +0000
Subject: [PATCH 14/84] fix: Negative floating point numbers in JSON were
 identified as integers

---
 bomba_json.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bomba_json.hpp b/bomba_json.hpp
index 1efc5eb..d32d01a 100644
--- a/bomba_json.hpp
+++ b/bomba_json.hpp
@@ -127,7 +127,7 @@ struct BasicJson {
 			if (nextChar == '"')
 				return TYPE_STRING;
 			if (nextChar == '-' || (nextChar >= '0' && nextChar <= '9')) {
-				for (int i = _position; _contents.begin() + i < _contents.end(); i++) {
+				for (int i = _position + (nextChar == '-'); _contents.begin() + i < _contents.end(); i++) {
 					if (_contents[i] == '.' || _contents[i] == 'e' || _contents[i] == 'E')
 						return TYPE_FLOAT;
 					if (_contents[i] < '0' || _contents[i] > '9')
-- 
2.43.0


From bb0edadad34ed49b4ce2231ebca4aabcc09c704b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:59 +0000
Subject: [PATCH 15/84] fix: Objects with unknown members were not read to the
 end

---
 bomba_object.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bomba_object.hpp b/bomba_object.hpp
index 4e6bbdc..9bb7c66 100644
--- a/bomba_object.hpp
+++ b/bomba_object.hpp
@@ -440,7 +440,7 @@ protected:
 			}
 #else
 			ObjectInfo<Child>::deserialise(format, this, flags, name, index);
-			return (index < ObjectInfo<Child>::size - 1); // True if not the last one
+			return (name.has_value() || index < ObjectInfo<Child>::size - 1); // True if not the last one
 #endif
 		});
 		return format.good;
-- 
2.43.0


From af909760e359e350eecea9869bad01ae0b07aec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:11 +0000
Subject: [PATCH 16/84] fix: Unknown arguments of a remote call caused the
 known ones to be misread

---
 bomba_rpc_object.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bomba_rpc_object.hpp b/bomba_rpc_object.hpp
index 18e0337..8f330a3 100644
--- a/bomba_rpc_object.hpp
+++ b/bomba_rpc_object.hpp
@@ -426,6 +426,8 @@ struct RpcLambdaInformationHolder {
 						IStructuredInput& in, int index, SerialisationFlags::Flags flags) {
 			constexpr int Index = usesParent() ? ArgIndex - 1 : ArgIndex;
 			if constexpr(ArgIndex >= argsSize) {
+				if (name.has_value())
+					in.skipObjectElement(flags); // Unknown argument
 				return;
 			} else {
 				if ((name.has_value() && *name == argumentInfo[Index].name) || (!name.has_value() && Index == index))
-- 
2.43.0


From c27aa8b6b74c3b23d1b856eed985d8d61a2b06e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:36 +0000
Subject: [PATCH 17/84] fix: Last elements of arrays were not read from binary
 data

---
 bomba_binary_protocol.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/bomba_binary_protocol.hpp b/bomba_binary_protocol.hpp
index b970424..b75d9e4 100644
--- a/bomba_binary_protocol.hpp
+++ b/bomba_binary_protocol.hpp
@@ -67,6 +67,7 @@ struct BinaryFormat {
 		std::span<const char> _contents;
 		int _position = 0;
 		std::array<int, MaxDepth> _sizes;
+		std::array<int, MaxDepth> _starts; // Position of the first element until the second one is reached
 		int _depth = -1;
 
 		template <typename T>
@@ -134,9 +135,12 @@ struct BinaryFormat {
 			if (_depth == MaxDepth)
 				throw std::logic_error("Maximal depth of nested arrays exceeded, increase it in the template arguments!");
 			_sizes[_depth] = readSize(flags);
+			_starts[_depth] = _position;
 		}
 		bool nextArrayElement(Flags) final override {
-			_sizes[_depth]--;
+			if (_starts[_depth] != _position)
+				_sizes[_depth]--; // An element was read before this
+			_starts[_depth] = -1;
 			return (_sizes[_depth] > 0);
 		}
 		void endReadingArray(Flags) final override {
-- 
2.43.0


From d32385cb2be2a252999e43e5d46125d454de1ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:47 +0000
Subject: [PATCH 18/84] fix: Numeric type flags on strings, arrays and
 optionals corrupted binary data

---
 bomba_binary_protocol.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/bomba_binary_protocol.hpp b/bomba_binary_protocol.hpp
index b75d9e4..90aa751 100644
--- a/bomba_binary_protocol.hpp
+++ b/bomba_binary_protocol.hpp
@@ -84,7 +84,7 @@ struct BinaryFormat {
 		}
 		int64_t readSize(Flags flags) {
 			if (flags & SerialisationFlags::DETERMINED_NUMERIC_TYPE)
-				readInt(flags);
+				return readInt(flags);
 			return readInt(SerialisationFlags::Flags(flags | SerialisationFlags::typeToFlags(SizeType())));
 		}
 	public:
@@ -188,7 +188,7 @@ struct BinaryFormat {
 		
 		void writeSize(SerialisationFlags::Flags flags, int64_t size) {
 			if (flags & SerialisationFlags::DETERMINED_NUMERIC_TYPE)
-				writeInt(flags, size);
+				return writeInt(flags, size);
 			return writeInt(SerialisationFlags::Flags(flags | SerialisationFlags::typeToFlags(SizeType())), size);
 		}
 	public:
@@ -205,7 +205,8 @@ struct BinaryFormat {
 			_contents += value;
 		}
 		void writeBool(Flags flags, bool value) final override {
-			NumWriter::template writeNumber<int8_t>(value, SerialisationFlags::Flags(flags | SerialisationFlags::INT_8), _contents);
+			NumWriter::template writeNumber<int8_t>(value, SerialisationFlags::Flags(
+					(flags & ~SerialisationFlags::DETERMINED_NUMERIC_TYPE) | SerialisationFlags::INT_8), _contents);
 		}
 		void writeNull(Flags) final override {
 		}
-- 
2.43.0


From 1a15d072eb71061af79e6e3eb436a0c07c3b2d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:42 +0000
Subject: [PATCH 19/84] fix: Exceptions terminated the binary protocol server,
 requests could be read past their end

---
 bomba_binary_protocol.hpp | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/bomba_binary_protocol.hpp b/bomba_binary_protocol.hpp
index 90aa751..3fee243 100644
--- a/bomba_binary_protocol.hpp
+++ b/bomba_binary_protocol.hpp
@@ -267,16 +267,31 @@ public:
 			typename BinaryFormat<decltype(outputBuffer), SizeType, NumWriter>::Input in(std::string_view(input.data(), input.size()));
 
 			int messageId = in.readInt(SerialisationFlags::UINT_32);
-			int inputSize = in.readInt(SerialisationFlags::typeToFlags(SizeType())); // We don't need the size
-			if (input.size() < inputSize)
+			int64_t inputSize = in.readInt(SerialisationFlags::typeToFlags(SizeType()));
+			if (inputSize < in.position())
+				return {ServerReaction::DISCONNECT, 0};
+			if (std::ssize(input) < inputSize)
 				return {ServerReaction::READ_ON, 0};
 
+			try {
+				return {respondToMessage(input.subspan(0, inputSize), in.position(), messageId, writer), inputSize};
+			} catch (...) {
+				return {ServerReaction::DISCONNECT, 0}; // The protocol has no representation of errors
+			}
+		}
+
+	private:
+		ServerReaction respondToMessage(std::span<char> input, int headerSize, int messageId, Callback<void(std::span<const char>)> writer) {
+			ExpandingBufferType outputBuffer;
+			typename BinaryFormat<decltype(outputBuffer), SizeType, NumWriter>::Input in(std::string_view(input.data(), input.size()));
+			in.restorePosition(SerialisationFlags::NONE, {headerSize});
+
 			const IRemoteCallable* target = &parent.callable;
 			while (target->getChild(0)) {
 				int request = in.readInt(SerialisationFlags::UINT_8);
 				target = target->getChild(request);
 				if (!target)
-					return {ServerReaction::DISCONNECT, 0};
+					return ServerReaction::DISCONNECT;
 			}
 
 			typename BinaryFormat<decltype(outputBuffer), SizeType, NumWriter>::Output out(outputBuffer);
@@ -284,16 +299,16 @@ public:
 			auto sizePosition = outputBuffer.size();
 			out.writeInt(SerialisationFlags::typeToFlags(SizeType()), 0);
 
-			target->call(&in, out, [&] {}, [&] (std::string_view problem) {
-				out.writeString(SerialisationFlags::typeToFlags(SizeType()), problem);
-			});
+			bool failed = false;
+			if (!target->call(&in, out, [&] {}, [&] (std::string_view) { failed = true; }) || failed)
+				return ServerReaction::DISCONNECT;
 			SizeType outputSize = outputBuffer.size();
 			memcpy(&std::span<char>(outputBuffer)[sizePosition], &outputSize, sizeof(outputSize));
 
 			std::string_view response = outputBuffer;
 			writer({response.data(), response.size()});
 
-			return {ServerReaction::OK, in.position()};
+			return ServerReaction::OK;
 		}
 	};
 
-- 
2.43.0


From 142f47817283fc81f8752a69154d2103135b3136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:27 +0000
Subject: [PATCH 20/84] fix: Offsets of optional members with non-trivial
 content were detected wrong

---
 bomba_object.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/bomba_object.hpp b/bomba_object.hpp
index 9bb7c66..b34ff79 100644
--- a/bomba_object.hpp
+++ b/bomba_object.hpp
@@ -319,10 +319,9 @@ class Serialisable : public IDescribableSerialisable {
 				return value;
 			} else if constexpr(SerialisableOptionalBase<T> && SerialisableOptionalOrSmartPointer<T>) {
 				if (_setupInstance) [[unlikely]] {
-					// Can't assure here that the instance part of std::optional won't be left uninitialised if started as blank
+					// Returning a blank std::optional would leave its instance part uninitialised, hiding where the member starts
 					T value;
 					value = std::decay_t<decltype(*value)>();
-					value = T(std::get<Enumeration>(_args)...);
 					return value;
 				} else {
 					return T(std::get<Enumeration>(_args)...);
-- 
2.43.0


From bc07459ecdd9fd7b4b036c49e4f4d27677a5ba83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:23 +0000
Subject: [PATCH 21/84] fix: Members whose first bytes are left uninitialised
 by their constructors were located wrong

---
 bomba_object.hpp | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/bomba_object.hpp b/bomba_object.hpp
index b34ff79..956c686 100644
--- a/bomba_object.hpp
+++ b/bomba_object.hpp
@@ -202,8 +202,10 @@ class Serialisable : public IDescribableSerialisable {
 	struct MappingElement {
 		int size;
 		std::array<int, 2> lastInitialisedBefore;
+		int exactStart; // UNKNOWN_START unless it could be determined directly
 		const char* name;
 	};
+	constexpr static int UNKNOWN_START = -1;
 	enum class InitialisationState : uint8_t {
 		UNINITIALISED,
 		INITIALISING,
@@ -279,7 +281,9 @@ class Serialisable : public IDescribableSerialisable {
 		for (int i = 0; i < memberCount; i++) {
 			int start = std::max(setupData.elements[i].lastInitialisedBefore[0],
 					setupData.elements[i].lastInitialisedBefore[1]);
-			while (childBytes[0][start] == garbageNumber1 && childBytes[1][start] == garbageNumber2) {
+			if (setupData.elements[i].exactStart != UNKNOWN_START) {
+				start = setupData.elements[i].exactStart;
+			} else while (childBytes[0][start] == garbageNumber1 && childBytes[1][start] == garbageNumber2) {
 				if (start > int(sizeof(Child))) throw std::logic_error("Reflection failed");
 				start++;
 			}
@@ -330,6 +334,17 @@ class Serialisable : public IDescribableSerialisable {
 				return T(std::get<Enumeration>(_args)...);
 			}
 		}
+
+		// If the value is constructed directly in the member (usual for non-trivial types), its address shows where the member
+		// starts even if its first bytes are left uninitialised
+		template <typename T>
+		T makeTypeAndLocate(int& exactStart, const Child* instance) const {
+			T made = makeType<T>(std::make_index_sequence<sizeof...(Args)>());
+			uint64_t difference = uint64_t(std::addressof(made)) - uint64_t(instance);
+			if (difference < sizeof(Child))
+				exactStart = difference;
+			return made;
+		}
 	public:
 #if _MSC_VER && !__INTEL_COMPILER
 		template <class T>
@@ -375,7 +390,11 @@ class Serialisable : public IDescribableSerialisable {
 						 &describeMember<T, Name>, &addMemberType<T>, Name, Flags>::done;
 				added = !added && Serialisable::_setup; // Avoid unused variable warning and use the _setup
 #endif
+				int& exactStart = info.elements[info.index].exactStart;
+				exactStart = UNKNOWN_START;
 				info.index++;
+				if constexpr(std::is_move_constructible_v<T>)
+					return makeTypeAndLocate<T>(exactStart, info.instance);
 			}
 			return makeType<T>(std::make_index_sequence<sizeof...(Args)>());
 		}
-- 
2.43.0


From c80880f06fab61b846523031c19522671e5927ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:40 +0000
Subject: [PATCH 22/84] fix: Maps inside objects were written to binary without
 size and keys

---
 bomba_core.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bomba_core.hpp b/bomba_core.hpp
index 083d5b2..009e46c 100644
--- a/bomba_core.hpp
+++ b/bomba_core.hpp
@@ -1131,6 +1131,7 @@ template <SerialisableMap Map>
 struct TypedSerialiser<Map> {
 	using ValueType = std::decay_t<decltype(std::declval<Map>().begin()->second)>;
 	static void serialiseMember(IStructuredOutput& out, const Map& value, SerialisationFlags::Flags flags) {
+		flags = SerialisationFlags::Flags(flags & ~SerialisationFlags::OBJECT_LAYOUT_KNOWN); // Concerns only the parent object
 		out.startWritingObject(flags, value.size());
 		int index = 0;
 		for (auto& it : value) {
@@ -1142,6 +1143,7 @@ struct TypedSerialiser<Map> {
 	}
 
 	static void deserialiseMember(IStructuredInput& in, Map& value, SerialisationFlags::Flags flags) {
+		flags = SerialisationFlags::Flags(flags & ~SerialisationFlags::OBJECT_LAYOUT_KNOWN);
 		if (value.empty()) {
 			in.readObject(flags, [&] (std::optional<std::string_view> elementName, int) { // Yes, there is an assignment
 				TypedSerialiser<ValueType>::deserialiseMember(in, value[typename Map::key_type(*elementName)], flags);
-- 
2.43.0


From 07858b53b6a2ac9b7fa4fbe51f6c36ed31db17d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:47 +0000
Subject: [PATCH 23/84] fix: Sizes that don't fit into the binary format's size
 type were silently truncated

---
 bomba_binary_protocol.hpp | 29 ++++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/bomba_binary_protocol.hpp b/bomba_binary_protocol.hpp
index 3fee243..b6082bc 100644
--- a/bomba_binary_protocol.hpp
+++ b/bomba_binary_protocol.hpp
@@ -11,6 +11,7 @@
 #include <cstring>
 #include <cmath>
 #include <bit>
+#include <limits>
 
 namespace Bomba {
 
@@ -84,8 +85,16 @@ struct BinaryFormat {
 		}
 		int64_t readSize(Flags flags) {
 			if (flags & SerialisationFlags::DETERMINED_NUMERIC_TYPE)
-				return readInt(flags);
-			return readInt(SerialisationFlags::Flags(flags | SerialisationFlags::typeToFlags(SizeType())));
+				return checkSize(readInt(flags));
+			return checkSize(readInt(SerialisationFlags::Flags(flags | SerialisationFlags::typeToFlags(SizeType()))));
+		}
+		int64_t checkSize(int64_t size) {
+			if (size < 0 || size > std::numeric_limits<int>::max()) [[unlikely]] {
+				parseError("Invalid size");
+				good = false;
+				return 0;
+			}
+			return size;
 		}
 	public:
 		Input(std::string_view contents) : _contents(contents.data(), contents.size()) {}
@@ -187,9 +196,15 @@ struct BinaryFormat {
 		OutputStringType& _contents;
 		
 		void writeSize(SerialisationFlags::Flags flags, int64_t size) {
-			if (flags & SerialisationFlags::DETERMINED_NUMERIC_TYPE)
-				return writeInt(flags, size);
-			return writeInt(SerialisationFlags::Flags(flags | SerialisationFlags::typeToFlags(SizeType())), size);
+			if (!(flags & SerialisationFlags::DETERMINED_NUMERIC_TYPE))
+				flags = SerialisationFlags::Flags(flags | SerialisationFlags::typeToFlags(SizeType()));
+			SerialisationFlags::typeWithFlags(flags, [&] (auto type) {
+				if constexpr(std::is_integral_v<decltype(type)>) {
+					if (uint64_t(size) > uint64_t(std::numeric_limits<decltype(type)>::max())) [[unlikely]]
+						logicError("Size exceeds the range of the size type, set a larger one in the template arguments!");
+				}
+			});
+			writeInt(flags, size);
 		}
 	public:
 		Output(OutputStringType& contents) : _contents(contents) {}
@@ -302,6 +317,8 @@ public:
 			bool failed = false;
 			if (!target->call(&in, out, [&] {}, [&] (std::string_view) { failed = true; }) || failed)
 				return ServerReaction::DISCONNECT;
+			if (uint64_t(outputBuffer.size()) > uint64_t(std::numeric_limits<SizeType>::max()))
+				return ServerReaction::DISCONNECT; // The response can't be represented
 			SizeType outputSize = outputBuffer.size();
 			memcpy(&std::span<char>(outputBuffer)[sizePosition], &outputSize, sizeof(outputSize));
 
@@ -370,6 +387,8 @@ public:
 			out.writeInt(SerialisationFlags::UINT_8, path[i]);
 		request(out, token);
 
+		if (uint64_t(outputBuffer.size()) > uint64_t(std::numeric_limits<SizeType>::max())) [[unlikely]]
+			logicError("Message is too long for the size type, set a larger one in the template arguments!");
 		// FIXME: Use the NumWriter to deal with endianness, also in the copy above
 		std::array<char, sizeof(SizeType)> writtenSize = NumWriter::prepareNumber(SizeType(outputBuffer.size()));
 		std::span<char> writing = outputBuffer;
-- 
2.43.0


From dd8c99dc09c653e515dd891239926507b72500f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:59 +0000
Subject: [PATCH 24/84] fix: Maximal depth set for binary protocol server and
 client was not used for arrays

---
 bomba_binary_protocol.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/bomba_binary_protocol.hpp b/bomba_binary_protocol.hpp
index b6082bc..e701092 100644
--- a/bomba_binary_protocol.hpp
+++ b/bomba_binary_protocol.hpp
@@ -279,7 +279,7 @@ public:
 				return {ServerReaction::READ_ON, 0};
 
 			ExpandingBufferType outputBuffer;
-			typename BinaryFormat<decltype(outputBuffer), SizeType, NumWriter>::Input in(std::string_view(input.data(), input.size()));
+			typename BinaryFormat<decltype(outputBuffer), SizeType, NumWriter, MaxDepth>::Input in(std::string_view(input.data(), input.size()));
 
 			int messageId = in.readInt(SerialisationFlags::UINT_32);
 			int64_t inputSize = in.readInt(SerialisationFlags::typeToFlags(SizeType()));
@@ -298,7 +298,7 @@ public:
 	private:
 		ServerReaction respondToMessage(std::span<char> input, int headerSize, int messageId, Callback<void(std::span<const char>)> writer) {
 			ExpandingBufferType outputBuffer;
-			typename BinaryFormat<decltype(outputBuffer), SizeType, NumWriter>::Input in(std::string_view(input.data(), input.size()));
+			typename BinaryFormat<decltype(outputBuffer), SizeType, NumWriter, MaxDepth>::Input in(std::string_view(input.data(), input.size()));
 			in.restorePosition(SerialisationFlags::NONE, {headerSize});
 
 			const IRemoteCallable* target = &parent.callable;
@@ -309,7 +309,7 @@ public:
 					return ServerReaction::DISCONNECT;
 			}
 
-			typename BinaryFormat<decltype(outputBuffer), SizeType, NumWriter>::Output out(outputBuffer);
+			typename BinaryFormat<decltype(outputBuffer), SizeType, NumWriter, MaxDepth>::Output out(outputBuffer);
 			out.writeInt(SerialisationFlags::UINT_32, messageId);
 			auto sizePosition = outputBuffer.size();
 			out.writeInt(SerialisationFlags::typeToFlags(SizeType()), 0);
@@ -367,7 +367,7 @@ public:
 
 	RequestToken send(UserId, const IRemoteCallable* method, Callback<void(IStructuredOutput&, RequestToken)> request) override {
 		ExpandingBufferType outputBuffer;
-		typename BinaryFormat<decltype(outputBuffer), SizeType, NumWriter>::Output out(outputBuffer);
+		typename BinaryFormat<decltype(outputBuffer), SizeType, NumWriter, MaxDepth>::Output out(outputBuffer);
 		out.writeInt(SerialisationFlags::UINT_32, _sendOrder);
 		RequestToken token{_sendOrder};
 		_sendOrder++;
-- 
2.43.0


From 32049e53c3c16aa59d059ed9c53821a34b90b9a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:10 +0000
Subject: [PATCH 25/84] fix: Malformed binary responses could hang the client,
 be read past their end or ignored

---
 bomba_binary_protocol.hpp | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/bomba_binary_protocol.hpp b/bomba_binary_protocol.hpp
index e701092..4573a46 100644
--- a/bomba_binary_protocol.hpp
+++ b/bomba_binary_protocol.hpp
@@ -344,18 +344,20 @@ class BinaryProtocolClient : public IRpcResponder {
 		return [=] (std::span<char> data, bool identified)
 						-> std::tuple<ServerReaction, RequestToken, int64_t> {
 			typename BinaryFormat<ExpandingBufferType, SizeType, NumWriter, MaxDepth>::Input in(std::string_view(data.data(), data.size()));
-			if (!identified) {
-				if (data.size() < sizeof(int) + sizeof(SizeType))
-					return {ServerReaction::READ_ON, RequestToken(), 0};
-			}
+			if (data.size() < sizeof(int) + sizeof(SizeType))
+				return {ServerReaction::READ_ON, RequestToken(), 0};
 			RequestToken receivedToken = { uint32_t(in.readInt(SerialisationFlags::UINT_32)) };
-			SizeType size = in.readInt(SerialisationFlags::typeToFlags(SizeType()));
-			if (data.size() < size)
+			int64_t size = in.readInt(SerialisationFlags::typeToFlags(SizeType()));
+			if (size < in.position())
+				return {ServerReaction::DISCONNECT, RequestToken(), 0}; // Must contain at least the header
+			if (std::ssize(data) < size)
 				return {ServerReaction::READ_ON, receivedToken, 0};
 			if (!identified && receivedToken != token)
 				return {ServerReaction::WRONG_REPLY, receivedToken, size};
 
-			operation(in);
+			typename BinaryFormat<ExpandingBufferType, SizeType, NumWriter, MaxDepth>::Input message(std::string_view(data.data(), size));
+			message.restorePosition(SerialisationFlags::NONE, {in.position()});
+			operation(message);
 			return {ServerReaction::OK, token, size};
 		};
 	}
@@ -397,7 +399,13 @@ public:
 		return token;
 	}
 	bool getResponse(RequestToken token, Callback<void(IStructuredInput&)> reader) override {
-		_tcpClient.getResponse(token, getResponseReader(token, [&] (IStructuredInput& input) { reader(input); }));
+		bool responded = false;
+		_tcpClient.getResponse(token, getResponseReader(token, [&] (IStructuredInput& input) {
+			responded = true;
+			reader(input);
+		}));
+		if (!responded) [[unlikely]]
+			remoteError("Did not receive a response");
 		return true;
 	}
 	bool hasResponse(RequestToken token) override {
-- 
2.43.0


From 7aab9375acc9718887f5a001737267024532fef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:06 +0000
Subject: [PATCH 26/84] fix: Unusable values of Content-Length led to invalid
 memory access

---
 bomba_http.hpp | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/bomba_http.hpp b/bomba_http.hpp
index c70d658..a4e2830 100644
--- a/bomba_http.hpp
+++ b/bomba_http.hpp
@@ -49,7 +49,7 @@ struct HttpParseState {
 			parsePosition = position;
 		}
 
-		if (position == std::ssize(input)) {
+		if (position >= std::ssize(input)) {
 			return {ServerReaction::READ_ON, position - 1};
 		}
 		// Parse it line by line
@@ -73,6 +73,8 @@ struct HttpParseState {
 
 			// Go through the attribute name
 			while (position < std::ssize(input)) {
+				if (input[position] == '\r') [[unlikely]]
+					return {ServerReaction::DISCONNECT, 0}; // No value
 				if (input[position] == ' ' || input[position] == '\t' || input[position] == ':') {
 					attributeName = std::string_view(input.data() + attributeNameStart, position - attributeNameStart);
 					break;
@@ -117,7 +119,15 @@ struct HttpParseState {
 
 			// Use the data
 			if (attributeName == "content-length") {
-				std::from_chars(&*attributeValue.begin(), &*attributeValue.end(), bodySize);
+				const char* valueEnd = attributeValue.data() + attributeValue.size();
+				int newSize = -1;
+				auto parsed = std::from_chars(attributeValue.data(), valueEnd, newSize);
+				while (parsed.ptr != valueEnd && (*parsed.ptr == ' ' || *parsed.ptr == '\t'))
+					parsed.ptr++;
+				if (parsed.ec != std::errc() || parsed.ptr != valueEnd || newSize < 0
+						|| (bodySize != -1 && bodySize != newSize)) [[unlikely]]
+					return {ServerReaction::DISCONNECT, 0}; // The end of the message can't be found
+				bodySize = newSize;
 			} else
 				headerReader(attributeName, attributeValue, std::pair<int, int>(attributeValueStart, attributeValue.size()));
 
@@ -685,12 +695,12 @@ public:
 					return { ServerReaction::DISCONNECT, 0}; // The size was not in the header
 				}
 			} else _state.bodySize = 0;
-			int consuming = _state.parsePosition + _state.bodySize;
+			int64_t consuming = int64_t(_state.parsePosition) + _state.bodySize;
 			
 			// All body has beed read
 			if (_state.requestType == ParseState::GET_REQUEST || _state.requestType == ParseState::POST_REQUEST) [[likely]] {
 				if (_state.requestType == ParseState::POST_REQUEST) {
-					if (_state.bodySize == -1 || std::ssize(input) < _state.parsePosition + _state.bodySize) {
+					if (_state.bodySize == -1 || std::ssize(input) < consuming) {
 						return {ServerReaction::READ_ON, input.size()};
 					}
 				}
@@ -914,7 +924,7 @@ public:
 					}
 				}
 
-				if (state.bodySize > 0 && std::ssize(input) < state.parsePosition + state.bodySize) {
+				if (state.bodySize > 0 && std::ssize(input) - state.parsePosition < state.bodySize) {
 					return {ServerReaction::READ_ON, RequestToken{}, input.size()};
 				}
 			
-- 
2.43.0


From 299c99e8e5d6926c922baa766959efde38302dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:18 +0000
Subject: [PATCH 27/84] fix: Malformed request lines were read out of bounds
 and headers leaked into the next HTTP request

---
 bomba_http.hpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/bomba_http.hpp b/bomba_http.hpp
index a4e2830..dd275f1 100644
--- a/bomba_http.hpp
+++ b/bomba_http.hpp
@@ -635,13 +635,13 @@ public:
 				POST_REQUEST,
 				WEIRD_REQUEST
 			} requestType = UNINVESTIGATED_REQUEST;
-			std::pair<int, int> path;
-			std::pair<int, int> contentType;
+			std::pair<int, int> path = {};
+			std::pair<int, int> contentType = {};
 			ServerReaction ending = ServerReaction::OK;
 
 			virtual bool firstLineReader(std::string_view firstLine) override {
 				int separator1 = 0;
-				while (firstLine[separator1] != ' ' && separator1 < std::ssize(firstLine))
+				while (separator1 < std::ssize(firstLine) && firstLine[separator1] != ' ')
 					separator1++;
 				std::string_view methodName = firstLine.substr(0, separator1);
 				if (methodName == "GET")
@@ -653,8 +653,10 @@ public:
 
 				separator1++;
 				int separator2 = separator1;
-				while (firstLine[separator2] != ' ' && separator2 < std::ssize(firstLine))
+				while (separator2 < std::ssize(firstLine) && firstLine[separator2] != ' ')
 					separator2++;
+				if (separator2 >= std::ssize(firstLine)) [[unlikely]]
+					return false;
 				path = std::pair<int, int>(separator1, separator2 - separator1);
 				separator2++;
 				std::string_view protocol = firstLine.substr(separator2, firstLine.size() - separator2);
@@ -677,8 +679,7 @@ public:
 		std::pair<ServerReaction, int64_t> respond(
 					std::span<char> input, Callback<void(std::span<const char>)> writer) override {
 			auto restore = [this] () {
-				_state.reset();
-				_state.requestType = ParseState::UNINVESTIGATED_REQUEST;
+				_state = ParseState();
 			};
 
 			// Locate the header's span
@@ -796,8 +797,9 @@ public:
 									"<!doctype html><html lang=en><title>Error 501: Method not implemented</title>";
 				writer(std::span<const char>(errorMessage.begin(), errorMessage.size()));
 			}
+			ServerReaction ending = _state.ending;
 			restore();
-			return {_state.ending, consuming};
+			return {ending, consuming};
 		}
 		
 	
-- 
2.43.0


From 5cc234707f48001506846e0f4f427106cb08fdf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:30 +0000
Subject: [PATCH 28/84] fix: Bodies of HTTP requests other than POST were
 parsed as further requests

---
 bomba_http.hpp | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/bomba_http.hpp b/bomba_http.hpp
index dd275f1..6d69d0a 100644
--- a/bomba_http.hpp
+++ b/bomba_http.hpp
@@ -695,17 +695,16 @@ public:
 				if (_state.bodySize == -1) {
 					return { ServerReaction::DISCONNECT, 0}; // The size was not in the header
 				}
-			} else _state.bodySize = 0;
+			} else if (_state.bodySize == -1)
+				_state.bodySize = 0;
 			int64_t consuming = int64_t(_state.parsePosition) + _state.bodySize;
 			
+			if (std::ssize(input) < consuming) {
+				return {ServerReaction::READ_ON, input.size()};
+			}
+
 			// All body has beed read
 			if (_state.requestType == ParseState::GET_REQUEST || _state.requestType == ParseState::POST_REQUEST) [[likely]] {
-				if (_state.requestType == ParseState::POST_REQUEST) {
-					if (_state.bodySize == -1 || std::ssize(input) < consuming) {
-						return {ServerReaction::READ_ON, input.size()};
-					}
-				}
-
 				bool success = false;
 				constexpr static char correctIntro[] = "HTTP/1.1 200 OK\r\nContent-Length:";
 				constexpr static char unsetSize[] = " 0         ";
-- 
2.43.0


From e3deb844e37ae4286c3ae9451633d7bba04c2d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:53 +0000
Subject: [PATCH 29/84] fix: Wrong line ending in the response to unsupported
 HTTP methods

---
 bomba_http.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bomba_http.hpp b/bomba_http.hpp
index 6d69d0a..0d5e132 100644
--- a/bomba_http.hpp
+++ b/bomba_http.hpp
@@ -791,7 +791,7 @@ public:
 				}
 			} else {
 				constexpr std::string_view errorMessage =
-									"HTTP/1.1 501 Method Not Implemented\n\r"
+									"HTTP/1.1 501 Method Not Implemented\r\n"
 									"Content-Length: 77\r\n\r\n"
 									"<!doctype html><html lang=en><title>Error 501: Method not implemented</title>";
 				writer(std::span<const char>(errorMessage.begin(), errorMessage.size()));
-- 
2.43.0


From d49da0e391f0ffa05fd29b7ecb19d60b9773beb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:06 +0000
Subject: [PATCH 30/84] fix: HTTP server appended an error response to a
 response that was already sent

---
 bomba_http.hpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/bomba_http.hpp b/bomba_http.hpp
index 0d5e132..ca9ca85 100644
--- a/bomba_http.hpp
+++ b/bomba_http.hpp
@@ -751,12 +751,17 @@ public:
 					}
 				};
 
-				WriteStarter correctResponseWriter = {writer};
+				bool anythingSent = false;
+				auto trackingWriter = [&] (std::span<const char> written) {
+					anythingSent = true;
+					writer(written);
+				};
+				WriteStarter correctResponseWriter = {trackingWriter};
 				std::string_view path{input.data() + _state.path.first, size_t(_state.path.second)};
 				try {
 					if (_state.requestType == ParseState::GET_REQUEST) {
 						success = _responders.getResponder.get(path, correctResponseWriter);
-						if (!success) [[unlikely]] {
+						if (!success && !anythingSent) [[unlikely]] {
 							constexpr std::string_view errorMessage =
 									"HTTP/1.1 404 Not Found\r\n"
 									"Content-Length: 73\r\n\r\n"
@@ -767,7 +772,7 @@ public:
 						std::span<char> body = {input.begin() + _state.parsePosition, input.begin() + _state.parsePosition + _state.bodySize};
 						std::string_view contentType = {input.data() + _state.contentType.first, size_t(_state.contentType.second)};
 						success = _responders.postResponder.post(path, contentType, body, correctResponseWriter);
-						if (!success) [[unlikely]] {
+						if (!success && !anythingSent) [[unlikely]] {
 							constexpr std::string_view errorMessage =
 									"HTTP/1.1 400 Bad Request\r\n"
 									"Content-Length: 66\r\n\r\n"
@@ -776,6 +781,8 @@ public:
 						}
 					}
 				} catch (...) {
+					if (anythingSent) // A part of the response is sent already, cannot send another
+						return {ServerReaction::DISCONNECT, 0};
 					constexpr std::string_view errorMessage =
 							"HTTP/1.1 500 Internal Server Error\r\n"
 							"Content-Length: 76\r\n\r\n"
-- 
2.43.0


From 9caf98eee05c8dc13bd227487a1211afab65c50f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:46 +0000
Subject: [PATCH 31/84] fix: Content-Length was truncated if a response had 2
 GiB or more

---
 bomba_http.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/bomba_http.hpp b/bomba_http.hpp
index ca9ca85..6c4bfd8 100644
--- a/bomba_http.hpp
+++ b/bomba_http.hpp
@@ -717,14 +717,13 @@ public:
 
 					WriteStarter(decltype(writer) writer) : writer(writer) {}
 
-					void startCorrectResponse(GeneralisedBuffer& target, std::string_view contentType, std::optional<int> size = std::nullopt) {
+					void startCorrectResponse(GeneralisedBuffer& target, std::string_view contentType, std::optional<int64_t> size = std::nullopt) {
 						startedResponse = true;
 						target += correctIntro;
 						if (!size.has_value()) {
 							target += unsetSize;
 						} else {
-							std::array<char, sizeof(unsetSize)> sizeBuffer;
-							memcpy(sizeBuffer.data(), unsetSize, sizeBuffer.size());
+							std::array<char, 32> sizeBuffer = {' '};
 							auto written = std::to_chars(sizeBuffer.data() + 1, sizeBuffer.data() + sizeBuffer.size(), *size);
 							target += std::string_view(sizeBuffer.data(), written.ptr - sizeBuffer.data());
 						}
-- 
2.43.0


From f29da37d8ba43d39e29fa60e92da8d7eb74312fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:59 +0000
Subject: [PATCH 32/84] fix: HTTP client ignored malformed responses and
 mishandled those without Content-Length

---
 bomba_http.hpp | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/bomba_http.hpp b/bomba_http.hpp
index 6c4bfd8..f2db6c6 100644
--- a/bomba_http.hpp
+++ b/bomba_http.hpp
@@ -861,14 +861,16 @@ class HttpClient : public IRpcResponder {
 
 		virtual bool firstLineReader(std::string_view firstLine) override {
 			int separator1 = 0;
-			while (firstLine[separator1] != ' ' && separator1 < std::ssize(firstLine))
+			while (separator1 < std::ssize(firstLine) && firstLine[separator1] != ' ')
 				separator1++;
 			separator1++;
-			int separator2 = separator1 + 1;
-			while (firstLine[separator2] != ' ' && separator2 < std::ssize(firstLine))
+			int separator2 = separator1;
+			while (separator2 < std::ssize(firstLine) && firstLine[separator2] != ' ')
 				separator2++;
-			std::from_chars(&firstLine[separator1], &firstLine[separator2], resultCode);
-			return true;
+			if (separator2 <= separator1) [[unlikely]]
+				return false;
+			auto parsed = std::from_chars(firstLine.data() + separator1, firstLine.data() + separator2, resultCode);
+			return parsed.ec == std::errc() && parsed.ptr == firstLine.data() + separator2;
 		}
 		virtual void headerReader(std::string_view, std::string_view, std::pair<int, int>) override { }
 	};
@@ -916,6 +918,7 @@ public:
 
 	void getResponse(RequestToken token, Callback<bool(std::span<char> message, bool success)> reader) {
 		bool done = false;
+		bool malformed = false;
 		while (!done) {
 			ParseState state;
 			_client.getResponse(token, [&, this] (std::span<char> input, bool identified)
@@ -925,6 +928,7 @@ public:
 					auto [reaction, position] = state.parse(input);
 					if (reaction == ServerReaction::DISCONNECT) {
 						done = true;
+						malformed = true;
 					}
 					if (reaction != ServerReaction::OK) {
 						return {reaction, RequestToken{}, position};
@@ -943,13 +947,15 @@ public:
 				}					
 				done = true;
 
-				reader(std::span<char>(input.begin() + state.parsePosition, input.begin() + state.parsePosition + state.bodySize),
+				reader(std::span<char>(input.begin() + state.parsePosition, input.begin() + state.parsePosition + std::max(0, state.bodySize)),
 						(state.resultCode >= 200 && state.resultCode < 300));
 				if (!identified)
 					_lastTokenRead.id++;
-				return {ServerReaction::OK, _lastTokenRead, state.parsePosition + std::max(0, state.bodySize)};
+				return {ServerReaction::OK, token, state.parsePosition + std::max(0, state.bodySize)};
 			});
 		}
+		if (malformed) [[unlikely]]
+			remoteError("Malformed HTTP response");
 	}
 };
 
-- 
2.43.0


From 462e9a1d98f5c6bf7fda388ca0eb35fcf8b1eacd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:09 +0000
Subject: [PATCH 33/84] fix: Checking if a response is ready waited for it and
 threw it away, responses received together were lost

---
 bomba_core.hpp        |  3 ++-
 bomba_http.hpp        | 27 +++++++++++++++++++++++++--
 bomba_sync_client.hpp | 38 +++++++++++++++++++++++---------------
 3 files changed, 50 insertions(+), 18 deletions(-)

diff --git a/bomba_core.hpp b/bomba_core.hpp
index 009e46c..2952355 100644
--- a/bomba_core.hpp
+++ b/bomba_core.hpp
@@ -906,7 +906,8 @@ struct ITcpClient {
 			(std::span<char> input, bool identified)> reader) = 0;
 
 	// Should look for a response with the identifier in the stream, similarly to getResponse(), but without processing
-	// the actual response. Intended for periodically polling if a response has arrived. Must be fast if called token.
+	// the actual response, so the response must be kept for getResponse(). Intended for periodically polling if a response
+	// has arrived. Must be fast if called repeatedly and must not wait.
 	virtual void tryToGetResponse(RequestToken token, Callback<std::tuple<ServerReaction, RequestToken, int64_t>
 			(std::span<char> input, bool identified)> reader) {
 		getResponse(token, reader);
diff --git a/bomba_http.hpp b/bomba_http.hpp
index f2db6c6..579c747 100644
--- a/bomba_http.hpp
+++ b/bomba_http.hpp
@@ -849,9 +849,31 @@ class HttpClient : public IRpcResponder {
 
 	bool hasResponse(RequestToken token) override {
 		bool has = false;
-		getResponse(token, [&] (std::span<char>, bool) {
+		ParseState state;
+		_client.tryToGetResponse(token, [&, this] (std::span<char> input, bool identified)
+					-> std::tuple<ServerReaction, RequestToken, int64_t> {
+			if (identified) {
+				has = true;
+				return {ServerReaction::OK, token, input.size()};
+			}
+			if (state.bodySize == -1) {
+				auto [reaction, position] = state.parse(input);
+				if (reaction == ServerReaction::DISCONNECT)
+					has = true; // There will be nothing else, getting it will fail without waiting
+				if (reaction != ServerReaction::OK) {
+					state = ParseState{};
+					return {reaction, RequestToken{}, position};
+				}
+			}
+			int64_t size = int64_t(state.parsePosition) + std::max(0, state.bodySize);
+			if (std::ssize(input) < size)
+				return {ServerReaction::READ_ON, RequestToken{}, input.size()};
+			state = ParseState{};
+			_lastTokenRead.id++;
+			if (_lastTokenRead != token)
+				return {ServerReaction::WRONG_REPLY, _lastTokenRead, size};
 			has = true;
-			return true;
+			return {ServerReaction::OK, _lastTokenRead, size};
 		});
 		return has;
 	}
@@ -931,6 +953,7 @@ public:
 						malformed = true;
 					}
 					if (reaction != ServerReaction::OK) {
+						state = ParseState{};
 						return {reaction, RequestToken{}, position};
 					}
 				}
diff --git a/bomba_sync_client.hpp b/bomba_sync_client.hpp
index 6356128..fde285d 100644
--- a/bomba_sync_client.hpp
+++ b/bomba_sync_client.hpp
@@ -32,17 +32,36 @@ class SyncNetworkClient : public ITcpClient {
 		// See if some response was already received
 		auto found = _responses.find(tokenSought);
 		if (found != _responses.end()) {
-			auto [reaction, token, position] = reader(found->second, true);
-			if (reaction == ServerReaction::OK || reaction == ServerReaction::DISCONNECT)
+			if constexpr(!doWait) {
+				reader(found->second, true); // Only checks its presence
 				return;
+			}
+			std::vector<char> response = std::move(found->second);
+			_responses.erase(found);
+			auto [reaction, token, position] = reader(response, true);
 			if (reaction == ServerReaction::READ_ON)
 				logicError("First it was WRONG_REPLY, now it is READ_ON?");
+			return;
 		}
 
 		// Wait for a reply if none was received before
 		std::array<char, 2048> responseBuffer;
-		bool wasReceived = false;
-		while (!wasReceived) {
+		while (true) {
+			// Some responses may have been received with the previous ones
+			while (!_leftovers.empty()) {
+				auto [reaction, tokenReceived, position] = reader(_leftovers, false);
+				if (reaction == ServerReaction::DISCONNECT)
+					return;
+				if (reaction == ServerReaction::READ_ON)
+					break;
+				if (reaction == ServerReaction::WRONG_REPLY || !doWait) { // Without waiting, it will be obtained later
+					_responses.insert(std::make_pair(tokenReceived, std::vector<char>(_leftovers.begin(), _leftovers.begin() + position)));
+				}
+				_leftovers.erase(_leftovers.begin(), _leftovers.begin() + position);
+				if (reaction == ServerReaction::OK)
+					return;
+			}
+
 			std::error_code error;
 			if constexpr(!doWait) {
 				if (_socket.available() == 0)
@@ -54,17 +73,6 @@ class SyncNetworkClient : public ITcpClient {
 				break;
 			}
 			_leftovers.insert(_leftovers.end(), responseBuffer.begin(), responseBuffer.begin() + received);
-			while (!_leftovers.empty()) {
-				auto [reaction, tokenReceived, position] = reader(_leftovers, false);
-				if (reaction == ServerReaction::OK)
-					wasReceived = true;
-				else if (reaction == ServerReaction::DISCONNECT || reaction == ServerReaction::READ_ON) {
-					return;
-				} else if (reaction == ServerReaction::WRONG_REPLY) {
-					_responses.insert(std::make_pair(tokenReceived, std::vector<char>(_leftovers.begin(), _leftovers.begin() + position)));
-				} // else read on
-				_leftovers = std::vector<char>(_leftovers.begin() + position, _leftovers.end());
-			}
 		}
 	}
 
-- 
2.43.0


From a09340b62c62eca638e10eb5598346bebbf3967a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:19 +0000
Subject: [PATCH 34/84] fix: Sending a request into a closed connection killed
 the program

---
 bomba_sync_client.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bomba_sync_client.hpp b/bomba_sync_client.hpp
index fde285d..c784ebb 100644
--- a/bomba_sync_client.hpp
+++ b/bomba_sync_client.hpp
@@ -85,7 +85,8 @@ public:
 		if (!_socket.is_open())
 			connect();
 		while (written.size() > 0) {
-			auto inSocket = _socket.write_some(Net::buffer(NetStringView(written.data(), written.size())));
+			auto inSocket = _socket.send(Net::buffer(NetStringView(written.data(), written.size())),
+					Net::socket_base::message_flags(MSG_NOSIGNAL)); // Closed connection must cause an exception, not SIGPIPE
 			written = std::span<char>(written.begin() + inSocket, written.end());
 		}
 	}
-- 
2.43.0


From 693a231311bc8078884221edd0c398f49805997d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:49 +0000
Subject: [PATCH 35/84] fix: HTTP client called the root method regardless of
 what method was used

---
 bomba_http.hpp | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/bomba_http.hpp b/bomba_http.hpp
index 579c747..cd71b8f 100644
--- a/bomba_http.hpp
+++ b/bomba_http.hpp
@@ -828,11 +828,14 @@ class HttpClient : public IRpcResponder {
 			Callback<void(IStructuredOutput&, RequestToken)> request) override {
 		auto methodName = PathWithSeparator<"/", LocalStringType>::constructPath(method);
 
+		LocalStringType path = LocalStringType();
+		path += '/';
+		path += std::string_view(methodName);
 		return post("application/x-www-form-urlencoded",
-					[methodName, &request] (GeneralisedBuffer& output, RequestToken token) {
+					[&request] (GeneralisedBuffer& output, RequestToken token) {
 			typename HtmlMessageEncoding<LocalStringType>::Output writer = output;
 			request(writer, token);
-		});
+		}, path);
 	}
 	bool getResponse(RequestToken token, Callback<void(IStructuredInput&)> reader) override {
 		getResponse(token, [&] (std::span<char> data, bool success) {
@@ -901,12 +904,14 @@ public:
 	HttpClient(ITcpClient& client, std::string_view virtualHost) : _client(client), _virtualHost(virtualHost) {}
 
 	RequestToken post(std::string_view contentType,
-			Callback<void(ExpandingBufferType&, RequestToken token)> request) {
+			Callback<void(ExpandingBufferType&, RequestToken token)> request, std::string_view path = "/") {
 		_lastTokenWritten.id++;
 		ExpandingBufferType written;
-		constexpr char correctIntro[] = "POST / HTTP/1.1\r\nContent-Length: ";
 		constexpr char unsetSize[] = "0         ";
-		written += correctIntro;
+		written += "POST ";
+		written += path;
+		written += " HTTP/1.1\r\nContent-Length: ";
+		int sizePosition = written.size();
 		written += unsetSize;
 		written += "\r\nHost: ";
 		written += _virtualHost;
@@ -916,8 +921,8 @@ public:
 		int sizeBefore = written.size();
 		request(written, RequestToken{_lastTokenWritten});
 		std::string_view reqView = written;
-		std::to_chars(const_cast<char*>(&reqView[sizeof(correctIntro) - 1]),
-				const_cast<char*>(&reqView[sizeof(correctIntro) + sizeof(unsetSize)]),
+		std::to_chars(const_cast<char*>(&reqView[sizePosition]),
+				const_cast<char*>(&reqView[sizePosition + sizeof(unsetSize) - 1]),
 				written.size() - sizeBefore);
 		_client.writeRequest(written);
 		return _lastTokenWritten;
-- 
2.43.0


From 7ce48b4183b982b19e1a8b8682a7ac093f7921bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:00 +0000
Subject: [PATCH 36/84] fix: HTTP form responder reported success when nothing
 was called

---
 bomba_http.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/bomba_http.hpp b/bomba_http.hpp
index cd71b8f..110c57a 100644
--- a/bomba_http.hpp
+++ b/bomba_http.hpp
@@ -548,8 +548,7 @@ public:
 			return false;
 		typename HtmlMessageEncoding<ResponseStringType>::Input input = {std::string_view(request.data(), request.size())};
 		NullStructredOutput nullOutput;
-		method->call(&input, nullOutput, {}, {});
-		return true;
+		return method->call(&input, nullOutput, {}, {});
 	}
 };
 
-- 
2.43.0


From 7f2d1e4aecf2ef312066dc28c9131503cab47720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:29 +0000
Subject: [PATCH 37/84] fix: JSON-RPC server sent two HTTP responses if the
 request was neither an object nor an array

---
 bomba_json_rpc.hpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/bomba_json_rpc.hpp b/bomba_json_rpc.hpp
index e3a0951..7fe7a55 100644
--- a/bomba_json_rpc.hpp
+++ b/bomba_json_rpc.hpp
@@ -172,14 +172,16 @@ public:
 			return false;
 		}
 
-		bool result = false;
-		writeStarter.writeUnknownSize("application/json", [&] (GeneralisedBuffer& response) {
-			constexpr auto noFlags = Json::Output::Flags::NONE;
+		constexpr auto noFlags = Json::Output::Flags::NONE;
+		typename Json::Input input(std::string_view(request.data(), request.size()));
+		auto inputType = input.identifyType(noFlags);
+		if (inputType != IStructuredInput::TYPE_ARRAY && inputType != IStructuredInput::TYPE_OBJECT) [[unlikely]] {
+			return false; // The request was total nonsense
+		}
 
-			typename Json::Input input(std::string_view(request.data(), request.size()));
+		writeStarter.writeUnknownSize("application/json", [&] (GeneralisedBuffer& response) {
 			typename Json::Output output(response);
 
-			auto inputType = input.identifyType(noFlags);
 			if (inputType == IStructuredInput::TYPE_ARRAY) {
 				// Handle an array of requests
 				input.startReadingArray(noFlags);
@@ -198,13 +200,11 @@ public:
 				}
 				input.endReadingArray(noFlags);
 				output.endWritingArray(noFlags);
-				result = true; // Http should not report an error here
-			} else if (inputType == IStructuredInput::TYPE_OBJECT) {
+			} else {
 				respondInternal(input, output, {});
-				result = true;
 			}
 		});
-		return result; // The request was total nonsense
+		return true; // Http should not report an error here
 	}
 };
 
-- 
2.43.0


From 6ded1e71742cb85172a43bfe9957c687e0998727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:43 +0000
Subject: [PATCH 38/84] fix: JSON-RPC errors found before the id were not
 reported, responses could have both result and error or be malformed

---
 bomba_json_rpc.hpp | 69 ++++++++++++++++++++++++++++++++++------------
 1 file changed, 51 insertions(+), 18 deletions(-)

diff --git a/bomba_json_rpc.hpp b/bomba_json_rpc.hpp
index 7fe7a55..71359db 100644
--- a/bomba_json_rpc.hpp
+++ b/bomba_json_rpc.hpp
@@ -38,35 +38,62 @@ class JsonRpcServerProtocol : public IHttpPostResponder {
 		bool failed = false;
 		bool responding = false;
 		IStructuredInput::Location paramsPosition;
-		bool idWritten = false;
+		bool resultIntroduced = false;
 
-		auto writeId = [&] {
+		auto startResponding = [&] {
 			responding = true;
 			onResponseStarted();
 			output.startWritingObject(noFlags, 3);
 			output.introduceObjectMember(noFlags, "jsonrpc", 0);
 			output.writeString(noFlags, "2.0");
 			output.introduceObjectMember(noFlags, "id", 1);
-
+		};
+		auto writeId = [&] {
+			// Reading it may fail, so nothing can be written before that
 			auto identified = input.identifyType(noFlags);
-			if (identified == IStructuredInput::TYPE_INTEGER)
-				output.writeInt(noFlags, input.readInt(noFlags));
-			else if (identified == IStructuredInput::TYPE_STRING)
-				output.writeString(noFlags, input.readString(noFlags));
-			else if (identified == IStructuredInput::TYPE_FLOAT)
-				output.writeFloat(noFlags, input.readFloat(noFlags));
-			else if (identified == IStructuredInput::TYPE_NULL) {
-				input.readNull(noFlags);
-				output.writeNull(noFlags);
+			if (identified == IStructuredInput::TYPE_INTEGER) {
+				auto id = input.readInt(noFlags);
+				startResponding();
+				output.writeInt(noFlags, id);
+			} else if (identified == IStructuredInput::TYPE_STRING) {
+				auto id = input.readString(noFlags);
+				startResponding();
+				output.writeString(noFlags, id);
+			} else if (identified == IStructuredInput::TYPE_FLOAT) {
+				auto id = input.readFloat(noFlags);
+				startResponding();
+				output.writeFloat(noFlags, id);
 			} else {
 				input.skipObjectElement(noFlags);
+				startResponding();
 				output.writeNull(noFlags);
 			}
 		};
+		auto requestPosition = input.storePosition(noFlags);
 		auto introduceError = [&] (std::string_view message, JsonRpcError errorType = JsonRpcError::INTERNAL_ERROR) {
+			if (failed || resultIntroduced)
+				return; // There can be only one result or one error
 			failed = true;
-			if (!responding)
-				return;
+			if (!responding) {
+				// The id could be after the place where the problem was found
+				try {
+					input.restorePosition(noFlags, requestPosition);
+					input.readObject(noFlags, [&] (std::optional<std::string_view> nextName, int) {
+						if (*nextName == "id")
+							writeId();
+						else
+							input.skipObjectElement(noFlags);
+						return !responding;
+					});
+				} catch (ParseError&) { }
+
+				if (!responding) {
+					if (errorType != JsonRpcError::PARSE_ERROR)
+						return; // It was a notification
+					startResponding();
+					output.writeNull(noFlags);
+				}
+			}
 
 			output.introduceObjectMember(noFlags, "error", 2);
 			auto errorWritten = output.writeObject(2);
@@ -79,6 +106,7 @@ class JsonRpcServerProtocol : public IHttpPostResponder {
 			bool called = false;
 			auto call = [&] () {
 				auto introduceResult = [&] () {
+					resultIntroduced = true;
 					if (responding)
 						output.introduceObjectMember(noFlags, "result", 2);
 				};
@@ -88,12 +116,15 @@ class JsonRpcServerProtocol : public IHttpPostResponder {
 					if (paramsPosition) {
 						input.restorePosition(noFlags, paramsPosition);
 					}
+					bool success = false;
 					if (responding)
-						method->call(paramsPosition ? &input : nullptr, output, introduceResult, introduceError);
+						success = method->call(paramsPosition ? &input : nullptr, output, introduceResult, introduceError);
 					else {
 						NullStructredOutput nullOutput;
-						method->call(paramsPosition ? &input : nullptr, nullOutput, introduceResult, introduceError);
+						success = method->call(paramsPosition ? &input : nullptr, nullOutput, introduceResult, introduceError);
 					}
+					if (!success) [[unlikely]]
+						introduceError("Method can't be called", JsonRpcError::METHOD_NOT_FOUND);
 				}
 				return formerPosition;
 			};
@@ -104,13 +135,15 @@ class JsonRpcServerProtocol : public IHttpPostResponder {
 			// * it's called immediately when method, params and id are all known
 			// * if something is missing, it's called after the loop
 			input.readObject(noFlags, [&] (std::optional<std::string_view> nextName, int) {
-				if (*nextName == "jsonrpc") {
+				if (called) {
+					input.skipObjectElement(noFlags); // Everything was processed already
+				} else if (*nextName == "jsonrpc") {
 					if (input.readString(noFlags) != "2.0") [[unlikely]] {
 						introduceError("Unknown JSON-RPC version", JsonRpcError::INVALID_REQUEST);
 						return false;
 					}
 				} else if (*nextName == "id") {
-					if (!called) {
+					if (!responding) {
 						writeId();
 						if (method && paramsPosition) {
 							input.restorePosition(noFlags, call());
-- 
2.43.0


From d33792fd577a5108263f83ab6afabde770e910e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:14 +0000
Subject: [PATCH 39/84] fix: JSON-RPC client returned an uninitialised value
 when the response had no result

---
 bomba_json_rpc.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/bomba_json_rpc.hpp b/bomba_json_rpc.hpp
index 71359db..694adde 100644
--- a/bomba_json_rpc.hpp
+++ b/bomba_json_rpc.hpp
@@ -285,10 +285,13 @@ public:
 	bool getResponse(RequestToken token, Callback<void(IStructuredInput&)> reader) final override {
 		bool retval = false;
 		_upper.getResponse(token, [&reader, &retval, token] (std::span<char> message, bool success) {
-			if (!success)
+			if (!success) {
+				remoteError("Server did not respond with OK");
 				return false;
+			}
 			typename Json::Input input(std::string_view(message.data(), message.size()));
 			bool okay = true;
+			bool hasResult = false;
 			auto fail = [&okay] (std::string_view problem) {
 				parseError(problem);
 				okay = false;
@@ -317,6 +320,7 @@ public:
 					okay = false;
 					return false;
 				} else if (*nextName == "result") {
+					hasResult = true;
 					reader(input);
 				} else {
 					fail("Unknown toplevel element");
@@ -324,7 +328,11 @@ public:
 				}
 				return true;
 			});
-			retval = input.good;
+			if (okay && !hasResult) {
+				remoteError("Response has no result");
+				okay = false;
+			}
+			retval = okay && input.good;
 			return okay;
 		});
 		return retval;
-- 
2.43.0


From 110f33d4be8dfcba8ad0d966a1ab0f066ecdac56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:45 +0000
Subject: [PATCH 40/84] fix: Request with an unusable id could end the whole
 JSON-RPC batch

---
 bomba_json_rpc.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bomba_json_rpc.hpp b/bomba_json_rpc.hpp
index 694adde..da914dd 100644
--- a/bomba_json_rpc.hpp
+++ b/bomba_json_rpc.hpp
@@ -85,7 +85,7 @@ class JsonRpcServerProtocol : public IHttpPostResponder {
 							input.skipObjectElement(noFlags);
 						return !responding;
 					});
-				} catch (ParseError&) { }
+				} catch (std::exception&) { } // It's already known that it's wrong
 
 				if (!responding) {
 					if (errorType != JsonRpcError::PARSE_ERROR)
-- 
2.43.0


From a0266eb7bf70a559a067c815e03e77894e87289b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:07 +0000
Subject: [PATCH 41/84] fix: Client that disconnected before receiving its
 response terminated the server

---
 bomba_tcp_server.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/bomba_tcp_server.hpp b/bomba_tcp_server.hpp
index 31f5ec5..985fac3 100644
--- a/bomba_tcp_server.hpp
+++ b/bomba_tcp_server.hpp
@@ -192,7 +192,14 @@ class TcpServer {
 
 		std::pair<ServerReaction, int> feedToResponder(std::span<char> data) override {
 			return _responder.respond(data, [this] (std::span<const char> output) {
-				_socket.send(Net::buffer(output.data(), output.size()));
+				// The other side may be disconnected already, it will be noticed by the next read
+				std::error_code error;
+				while (!output.empty() && !error) {
+					auto sent = _socket.send(Net::buffer(output.data(), output.size()), Net::socket_base::message_flags(MSG_NOSIGNAL), error);
+					if (error == std::errc::interrupted)
+						error.clear();
+					output = output.subspan(sent);
+				}
 			});
 		}
 
-- 
2.43.0


From 29af1eff2d1e3550d94b90230a7fc1c60b3aca2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:56 +0000
Subject: [PATCH 42/84] fix: DynamicFileServer allowed downloading files
 outside its folder

---
 bomba_download_server.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/bomba_download_server.hpp b/bomba_download_server.hpp
index 5ba471b..314453c 100644
--- a/bomba_download_server.hpp
+++ b/bomba_download_server.hpp
@@ -115,8 +115,13 @@ public:
 			}
 		}
 
+		std::filesystem::path relativePath = editedPath.substr(1);
+		if (relativePath.has_root_path()) {
+			std::cout << "Forbidden path" << std::endl;
+			return false; // Appending an absolute path would replace the entire path
+		}
 		std::filesystem::path fullPath = _root;
-		fullPath.append(editedPath.substr(1));
+		fullPath.append(relativePath.string());
 
 		if (!std::filesystem::exists(fullPath) || !std::filesystem::is_regular_file(fullPath)) {
 			std::cout << "Can't send " << fullPath << std::endl;
-- 
2.43.0


From 98c68e7b858ceaaa3f57a95ec17c8614cd5d6922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:04 +0000
Subject: [PATCH 43/84] fix: File servers failed on files without an extension

---
 bomba_download_server.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bomba_download_server.hpp b/bomba_download_server.hpp
index 314453c..1561557 100644
--- a/bomba_download_server.hpp
+++ b/bomba_download_server.hpp
@@ -48,6 +48,8 @@ protected:
 		auto foundExtension = _extensions.find(std::string(extension));
 		if (foundExtension != _extensions.end()) {
 			return foundExtension->second;
+		} else if (extension.empty()) {
+			return "application/octet-stream";
 		} else {
 			return "application/" + std::string(extension.substr(1)); // Improvise if unknown
 		}
@@ -88,7 +90,7 @@ public:
 	bool get(std::string_view path, IWriteStarter& outputProvider) {
 		auto foundGenerated = _generatedFiles.find(std::string(path));
 		if (foundGenerated != _generatedFiles.end()) {
-			std::string_view extension = path.substr(path.find_last_of('.'));
+			std::string extension = std::filesystem::path(path).extension().string();
 			if (foundGenerated->second.allKnownAtOnce) {
 				foundGenerated->second.provider([&] (std::span<const char> chunk) {
 					outputProvider.writeKnownSize(extensionDescription(extension), chunk.size(), [&] (GeneralisedBuffer& buffer) {
-- 
2.43.0


From f058341ecc7e186bc0bbcb24559428d13a89c752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:14 +0000
Subject: [PATCH 44/84] fix: Files with 2 GiB or more could not be downloaded

---
 bomba_download_server.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bomba_download_server.hpp b/bomba_download_server.hpp
index 1561557..46fdea8 100644
--- a/bomba_download_server.hpp
+++ b/bomba_download_server.hpp
@@ -136,7 +136,7 @@ public:
 			uintmax_t position = 0;
 			while (position < size) {
 				std::array<char, 4096> buffer;
-				int amount = std::min<int>(buffer.size(), size - position);
+				int amount = std::min<uintmax_t>(buffer.size(), size - position);
 				file.read(buffer.data(), amount);
 				output += std::span<const char>(buffer.data(), amount);
 				position += amount;
-- 
2.43.0


From ccdb1591f1aa45daedb9185b1d43e07347af34e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:22 +0000
Subject: [PATCH 45/84] fix: Adding a generated file while others are being
 downloaded was a data race

---
 bomba_download_server.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bomba_download_server.hpp b/bomba_download_server.hpp
index 46fdea8..820e622 100644
--- a/bomba_download_server.hpp
+++ b/bomba_download_server.hpp
@@ -223,6 +223,7 @@ public:
 		reloadInternal();
 	}
 	void addGeneratedFile(std::string_view name, std::vector<char>&& contents) {
+		std::lock_guard lock(_mutex);
 		addModifier([this, name = '/' + std::string(name), contents = std::move(contents)] {
 			CachedFile entry(name, this);
 			entry.contents = contents;
-- 
2.43.0


From e15284dd3c9c842a92103e320071cfd982ec8036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:05 +0000
Subject: [PATCH 46/84] fix: Types used indirectly by members of objects were
 missing in the description

---
 bomba_core.hpp   | 7 +++++++
 bomba_object.hpp | 7 +------
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/bomba_core.hpp b/bomba_core.hpp
index 2952355..f22dd41 100644
--- a/bomba_core.hpp
+++ b/bomba_core.hpp
@@ -998,6 +998,13 @@ struct TypedSerialiser<Serialisable> {
 		});
 	}
 	static void listTypes(ISerialisableDescriptionFiller& filler) {
+		static thread_local bool listing = false;
+		if (listing)
+			return; // The type contains itself
+		listing = true;
+		struct Finaliser {
+			~Finaliser() { listing = false; }
+		} finaliser;
 		Serialisable instance;
 		instance.listTypes(filler);
 		filler.fillMembers(instance.getTypeName(), [&instance] (IPropertyDescriptionFiller& propertyFiller) {
diff --git a/bomba_object.hpp b/bomba_object.hpp
index 956c686..5783962 100644
--- a/bomba_object.hpp
+++ b/bomba_object.hpp
@@ -54,12 +54,7 @@ void describeMember(IPropertyDescriptionFiller& filler) {
 
 template <typename T>
 void addMemberType(ISerialisableDescriptionFiller& filler) {
-	if constexpr(std::is_base_of_v<IDescribableSerialisable, T>) {
-		T instance;
-		filler.fillMembers(instance.getTypeName(), [&instance] (IPropertyDescriptionFiller& filler) {
-			instance.describe(filler);
-		});
-	}
+	TypedSerialiser<T>::listTypes(filler);
 }
 
 #ifndef NO_DEFECT_REPORT_2118
-- 
2.43.0


From ef326c2c54c2520286c087b4b573b683d6e369b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:18 +0000
Subject: [PATCH 47/84] fix: Names of methods in nested objects had extra dots
 in the description

---
 bomba_json_wsp_description.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/bomba_json_wsp_description.hpp b/bomba_json_wsp_description.hpp
index fdad666..25bb3bb 100644
--- a/bomba_json_wsp_description.hpp
+++ b/bomba_json_wsp_description.hpp
@@ -155,8 +155,7 @@ class JsonWspDescription : public IRemoteCallableDescriptionFiller {
 public:
 	JsonWspDescription(IStructuredOutput::ObjectFiller& output, std::string_view name = "", std::string_view prefix = "") : _output(output) {
 		if (!prefix.empty()) {
-			_path += prefix;
-			_path += '.';
+			_path += prefix; // Already ends with the separator
 		}
 		if (!name.empty()) {
 			_path += name;
-- 
2.43.0


From 5bb7c754f38d4e9508657be846e176fc50e754f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:31 +0000
Subject: [PATCH 48/84] fix: Captures of lambdas given to RpcLambdaHolder as
 lvalues were never destroyed

---
 bomba_dynamic_object.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bomba_dynamic_object.hpp b/bomba_dynamic_object.hpp
index db04d7b..f8c54d2 100644
--- a/bomba_dynamic_object.hpp
+++ b/bomba_dynamic_object.hpp
@@ -43,7 +43,7 @@ public:
 	template <IsAFunctor LambdaType>
 	RpcLambdaHolder(LambdaType&& from)
 		: _isLocal(sizeof(std::decay_t<RpcLambda<std::decay_t<LambdaType>>>) <= sizeof(_content.local) &&
-				std::is_trivially_destructible_v<LambdaType>)
+				std::is_trivially_destructible_v<std::decay_t<LambdaType>>)
 		, _owning(true)
 	{
 		//_descriptionFiller = RpcLambda<std::decay_t<LambdaType>>;
-- 
2.43.0


From c6481458ecee6a7523cb49d374746bea626eceda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:42 +0000
Subject: [PATCH 49/84] fix: Describing DynamicRpcObject containing an object
 dereferenced null

---
 bomba_dynamic_object.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/bomba_dynamic_object.hpp b/bomba_dynamic_object.hpp
index f8c54d2..6fc9239 100644
--- a/bomba_dynamic_object.hpp
+++ b/bomba_dynamic_object.hpp
@@ -101,11 +101,19 @@ public:
 	}
 
 	void listTypes(ISerialisableDescriptionFiller& filler) const {
-		_info->subtypesAdder(filler);
+		if (_info)
+			_info->subtypesAdder(filler);
+		else if (operator->())
+			operator->()->listTypes(filler);
 	}
 
 	void addToDescription(std::string_view name, IRemoteCallableDescriptionFiller& filler) const {
-		_info->unnamedChildAdder(name, filler);
+		if (_info)
+			_info->unnamedChildAdder(name, filler);
+		else if (operator->())
+			filler.addSubobject(name, [this] (IRemoteCallableDescriptionFiller& nestedFiller) {
+				operator->()->generateDescription(nestedFiller);
+			});
 	}
 
 	static RpcLambdaHolder nonOwning(IRemoteCallable& referree) {
-- 
2.43.0


From ae6bb2ff8352640a42a4cdaa96de804a33c0dc27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:13 +0000
Subject: [PATCH 50/84] fix: Letter U+0800 was decoded wrong from HTML forms

---
 bomba_http.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bomba_http.hpp b/bomba_http.hpp
index 110c57a..e921c6c 100644
--- a/bomba_http.hpp
+++ b/bomba_http.hpp
@@ -181,7 +181,7 @@ void demangleHttpResponse(std::string_view input, StringType& output) {
 				if (value < 0x80)
 					output += value;
 				else {
-					if (value > 0x800) {
+					if (value >= 0x800) {
 						if (value >= 0x10000) {
 							output += 0b11110000 + (value >> 18);
 							output += 0b10000000 + ((value >> 12) & 0b00111111);
-- 
2.43.0


From 0aa04994ce67b74d693ca7a10cd9e6e95319d778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:23 +0000
Subject: [PATCH 51/84] fix: Floating point numbers in HTML forms with large
 exponents were decoded wrong and moved the position randomly

---
 bomba_http.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/bomba_http.hpp b/bomba_http.hpp
index e921c6c..f791343 100644
--- a/bomba_http.hpp
+++ b/bomba_http.hpp
@@ -367,7 +367,6 @@ struct HtmlMessageEncoding {
 			std::string_view demangled = demangleTillEnd();
 			double result = 0;
 			std::from_chars_result got = std::from_chars(demangled.data(), demangled.data() + demangled.size(), result);
-			_position += got.ptr - &_contents[_position];
 			if (got.ec != std::errc()) [[unlikely]]
 				fail("Expected double");
 			return result;
@@ -443,8 +442,8 @@ struct HtmlMessageEncoding {
 		void writeValue(Num value) {
 			constexpr int SIZE = 32; // Must fit any number and the terminating zero
 			std::array<char, SIZE> bytes = {};
-			std::to_chars(bytes.data(), bytes.data() + SIZE, value);
-			_contents += &bytes[0];
+			auto written = std::to_chars(bytes.data(), bytes.data() + SIZE, value);
+			mangleHttpResponse(std::string_view(bytes.data(), written.ptr - bytes.data()), _contents); // There can be a +
 		}
 	public:
 		Output(OutputStringType& contents) : _contents(contents) {}
-- 
2.43.0


From 9424f082b84c2e5986470494e35619d608f3a03d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:34 +0000
Subject: [PATCH 52/84] fix: Form entries without values swallowed the
 following entries, names were not encoded

---
 bomba_http.hpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/bomba_http.hpp b/bomba_http.hpp
index f791343..128bc09 100644
--- a/bomba_http.hpp
+++ b/bomba_http.hpp
@@ -403,19 +403,18 @@ struct HtmlMessageEncoding {
 				if (_contents[_position] == '&')
 					_position++;
 				int start = _position;
-				while (_position < std::ssize(_contents) && _contents[_position] != '=')
+				while (_position < std::ssize(_contents) && _contents[_position] != '=' && _contents[_position] != '&')
 					_position++;
 				_demangled.clear();
 				demangleHttpResponse(_contents.substr(start, _position - start), _demangled);
-				_position++;
+				if (_position < std::ssize(_contents) && _contents[_position] == '=')
+					_position++;
 				onEach(_demangled, index);
 				index++;
 			}
 			_objectStarted = false;
 		}
 		void skipObjectElement(Flags) final override {
-			if (_contents[_position] == '&')
-				_position++;
 			while (_position < std::ssize(_contents) && _contents[_position] != '&')
 				_position++;
 		}
@@ -486,7 +485,7 @@ struct HtmlMessageEncoding {
 		void introduceObjectMember(Flags, std::string_view name, int) final override {
 			if (_objectIndex != 0)
 				_contents += '&';
-			_contents += name.data();
+			mangleHttpResponse(name, _contents);
 			_contents += '=';
 			_objectIndex++;
 		}
-- 
2.43.0


From a5c35bed003cca172d07dda558de8871b1582fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:47 +0000
Subject: [PATCH 53/84] fix: Types of values in HTML forms were identified from
 unrelated characters

---
 bomba_http.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bomba_http.hpp b/bomba_http.hpp
index 128bc09..f0072e5 100644
--- a/bomba_http.hpp
+++ b/bomba_http.hpp
@@ -337,9 +337,9 @@ struct HtmlMessageEncoding {
 					if (exponentWasUsed) [[unlikely]]
 						return TYPE_STRING;
 					exponentWasUsed = true;
-					if (demangledPos >= std::ssize(demangled)) [[unlikely]]
+					if (demangledPos + 1 >= std::ssize(demangled)) [[unlikely]]
 						return TYPE_STRING;
-					if (demangled[demangledPos] == '-')
+					if (demangled[demangledPos + 1] == '-' || demangled[demangledPos + 1] == '+')
 						demangledPos++;
 					canBeInt = false;
 				} else if (demangled[demangledPos] == '.') {
@@ -348,7 +348,7 @@ struct HtmlMessageEncoding {
 					decimalWasUsed = true;
 					canBeInt = false;
 				}
-				if (demangled[_position] < '0' || demangled[_position] > '9')
+				else if (demangled[demangledPos] < '0' || demangled[demangledPos] > '9')
 					return TYPE_STRING;
 			}
 			return canBeInt ? TYPE_INTEGER : TYPE_FLOAT;
-- 
2.43.0


From 5136d5ca2e62a05d0cd21163132c66276673f16c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:26 +0000
Subject: [PATCH 54/84] fix: JavaScript client could not call methods with
 array arguments

---
 public_html/bomba.js | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/public_html/bomba.js b/public_html/bomba.js
index b90439a..14566c4 100644
--- a/public_html/bomba.js
+++ b/public_html/bomba.js
@@ -108,16 +108,20 @@ function makeGuiForArg(name, type, identifier, types) {
 
 }
 	
-function makeCheckIfExpectedType(name, described) {
+function makeCheckIfExpectedType(name, described, depth = 0) {
 	if (described === "number") {
 		return `if (typeof ${name} != "number") { throw "${name} must be a number" }`;
 	} else if (described === "string") {
 		return `if (typeof ${name} != "string") { throw "${name} must be a string" }`;
 	} else if (described === "boolean") {
 		return `if (typeof ${name} != "boolean") { throw "${name} must be a boolean" }`;
-	} else if (typeof type === "object" && Array.isArray(type)) {
-		let result = `if (typeof ${name} != "object" || Array.isArray(${name})) { throw "${name} must be an array" } `;
-		result += `for (let i = 0; i < ${name}.length; i++) { ${ makeCheckIfExpectedType(name + "[i]", described[0]) } }`;
+	} else if (Array.isArray(described)) {
+		const index = `i${depth}`;
+		let result = `if (!Array.isArray(${name})) { throw "${name} must be an array" } `;
+		result += `for (let ${index} = 0; ${index} < ${name}.length; ${index}++) { ${ makeCheckIfExpectedType(`${name}[${index}]`, described[0], depth + 1) } }`;
+		return result;
+	} else if (described === "object") {
+		return `if (typeof ${name} != "object") { throw "${name} must be an object" }`;
 	} else {
 		return `if (${name}.constructor.name != "${described}") { throw "${name} must be a an object of type ${described}" }`;
 	}
@@ -208,9 +212,10 @@ function generateApiCall(name, argNames, argDefinitions, docLines, returnInfo, p
 			code += `\tif (arg_${argNames[i]} != undefined) `;
 		}
 		code += `\t{\n\t\t${ makeCheckIfExpectedType(`arg_${argNames[i]}`, argDefinitions[i].type) }\n`;
-		code += `\t\tif (typeof arg_${argNames[i]} === "object" && typeof arg_${argNames[i]}.constructor.name === "string")\n`;
+		code += `\t\tif (typeof arg_${argNames[i]} === "object" && typeof arg_${argNames[i]}.toJson === "function")\n`;
 		code += `\t\t\trequest.params.${argNames[i]} = arg_${argNames[i]}.toJson()\n`;
-		code += `\t\trequest.params.${argNames[i]} = arg_${argNames[i]}\n`;
+		code += `\t\telse\n`;
+		code += `\t\t\trequest.params.${argNames[i]} = arg_${argNames[i]}\n`;
 		code += "\t}\n";
 	}
 	code += "\tconst stringified = JSON.stringify(request)\n";
-- 
2.43.0


From d2be5d258bd1a52007c2fdf3b3b5067b2da67000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:29 +0000
Subject: [PATCH 55/84] fix: JavaScript client loaded the description from the
 default server even if another was set

---
 public_html/bomba.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/public_html/bomba.js b/public_html/bomba.js
index 14566c4..b658e11 100644
--- a/public_html/bomba.js
+++ b/public_html/bomba.js
@@ -274,7 +274,7 @@ function generateApiCallGui(callee, name, argNames, argDefinitions, types) {
 }
 
 export async function loadApi(path) {
-	const description = await getJson("api_description.json");
+	const description = await getJson("api_description.json", path);
 	const api = {};
 	const types = {};
 	
-- 
2.43.0


From 8838c3ca32f5fe65c5498533cc042b4dc0af93b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:31 +0000
Subject: [PATCH 56/84] fix: GUI of nested objects could not be generated

---
 public_html/bomba.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/public_html/bomba.js b/public_html/bomba.js
index b658e11..50e69ec 100644
--- a/public_html/bomba.js
+++ b/public_html/bomba.js
@@ -316,7 +316,7 @@ export async function loadApi(path) {
 		let elementMakers = [];
 		for (const [subName, value] of Object.entries(api)) {
 			if (typeof value != "function") {
-				value.gui = makeApiGuiGenerator(value, subName);
+				makeApiGuiGenerator(value, subName);
 			}
 			elementMakers.push(value.gui);
 		}
-- 
2.43.0


From 8fc819817ae05d7528d9ba72a7f3076677f6e7b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:43 +0000
Subject: [PATCH 57/84] fix: RpcLambdaHolder could not be constructed from
 other callable objects

---
 bomba_dynamic_object.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bomba_dynamic_object.hpp b/bomba_dynamic_object.hpp
index 6fc9239..c48583b 100644
--- a/bomba_dynamic_object.hpp
+++ b/bomba_dynamic_object.hpp
@@ -62,7 +62,7 @@ public:
 		: _isLocal(false)
 		, _owning(true)
 	{
-		_content.held = new T(std::move<T>(instance));
+		_content.held = new T(std::move(instance));
 	}
 
 	RpcLambdaHolder(RpcLambdaHolder&& other) {
-- 
2.43.0


From d47097fcd924ec09f38ea89fa51b98b43ad35523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:58 +0000
Subject: [PATCH 58/84] fix: Assigning Future<void> did nothing and lacked a
 return statement

---
 bomba_rpc_object.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/bomba_rpc_object.hpp b/bomba_rpc_object.hpp
index 8f330a3..8b8fc9f 100644
--- a/bomba_rpc_object.hpp
+++ b/bomba_rpc_object.hpp
@@ -263,7 +263,12 @@ struct IResponseReader {
 			other._reader = nullptr;
 			other._responder = nullptr;
 		}
-		FutureBase& operator=(FutureBase&&) {}
+		FutureBase& operator=(FutureBase&& other) {
+			std::swap(_reader, other._reader);
+			std::swap(_responder, other._responder);
+			std::swap(_token, other._token);
+			return *this;
+		}
 		FutureBase() = default;
 	};
 } // namespace Detail
-- 
2.43.0


From af2e2c033185f3cc844bb21a3bc80a3a8568077a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:41 +0000
Subject: [PATCH 59/84] fix: Percent-encoded integers in forms were refused

---
 bomba_http.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/bomba_http.hpp b/bomba_http.hpp
index f0072e5..7c3d397 100644
--- a/bomba_http.hpp
+++ b/bomba_http.hpp
@@ -355,10 +355,9 @@ struct HtmlMessageEncoding {
 		}
 
 		int64_t readInt(Flags) final override {
-			int end = getEnd();
+			std::string_view demangled = demangleTillEnd();
 			int64_t result = 0;
-			std::from_chars_result got = std::from_chars(&_contents[_position], &_contents[end], result);
-			_position = end;
+			std::from_chars_result got = std::from_chars(demangled.data(), demangled.data() + demangled.size(), result);
 			if (got.ec != std::errc()) [[unlikely]]
 				fail("Expected integer");
 			return result;
-- 
2.43.0


From d357eaa93ed8662333762e49310488405b86ccca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:49 +0000
Subject: [PATCH 60/84] fix: Reading JSON past its end after an error never
 stopped

---
 bomba_json.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/bomba_json.hpp b/bomba_json.hpp
index d32d01a..90dac26 100644
--- a/bomba_json.hpp
+++ b/bomba_json.hpp
@@ -34,8 +34,7 @@ struct BasicJson {
 			if (_contents.begin() + position < _contents.end()) [[likely]]
 				return false;
 				
-			if (good) [[unlikely]]
-				endOfInput();
+			endOfInput(); // Even if it's not the first error, nothing else would stop the reading
 			return true;
 		}
 		
-- 
2.43.0


From 50ed7d95aeaa985d7dc7d5b474bb9f55c7eab2bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:07 +0000
Subject: [PATCH 61/84] fix: SyncNetworkClient waiting forever or killed by
 SIGPIPE on a closed connection

---
 bomba_sync_client.hpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/bomba_sync_client.hpp b/bomba_sync_client.hpp
index c784ebb..f47d3a3 100644
--- a/bomba_sync_client.hpp
+++ b/bomba_sync_client.hpp
@@ -72,6 +72,10 @@ class SyncNetworkClient : public ITcpClient {
 				remoteError(error.message().c_str());
 				break;
 			}
+			if (received == 0) { // End of file
+				remoteError("Connection closed");
+				break;
+			}
 			_leftovers.insert(_leftovers.end(), responseBuffer.begin(), responseBuffer.begin() + received);
 		}
 	}
@@ -85,8 +89,13 @@ public:
 		if (!_socket.is_open())
 			connect();
 		while (written.size() > 0) {
+			std::error_code error;
 			auto inSocket = _socket.send(Net::buffer(NetStringView(written.data(), written.size())),
-					Net::socket_base::message_flags(MSG_NOSIGNAL)); // Closed connection must cause an exception, not SIGPIPE
+					Net::socket_base::message_flags(MSG_NOSIGNAL), error); // The overload without the error ignores the flags, causing SIGPIPE
+			if (error) {
+				remoteError(error.message().c_str());
+				return;
+			}
 			written = std::span<char>(written.begin() + inSocket, written.end());
 		}
 	}
-- 
2.43.0


From 2d7067c2cad7ac5a04198cc0e8e545678fa39221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:54 +0000
Subject: [PATCH 62/84] fix: DynamicFileServer sent hidden files if the path
 did not start with a slash

---
 bomba_download_server.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bomba_download_server.hpp b/bomba_download_server.hpp
index 820e622..86109c4 100644
--- a/bomba_download_server.hpp
+++ b/bomba_download_server.hpp
@@ -111,7 +111,7 @@ public:
 		if (editedPath.empty() || editedPath.back() == '/') {
 			editedPath = "/index.html";
 		} else {
-			if (editedPath[0] == '.' || editedPath.find("../") != std::string_view::npos || editedPath.find("/.") != std::string_view::npos) {
+			if (editedPath[0] != '/' || editedPath.find("../") != std::string_view::npos || editedPath.find("/.") != std::string_view::npos) {
 				std::cout << "Forbidden path" << std::endl;
 				return false; // Exclude paths out of the folder, hidden files or empty paths
 			}
-- 
2.43.0


From 50b01aafb9ea713c054492bfb4295c0782962a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:02 +0000
Subject: [PATCH 63/84] fix: arguments following an optional one or arrays of
 optionals were described as optional

---
 bomba_json_wsp_description.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/bomba_json_wsp_description.hpp b/bomba_json_wsp_description.hpp
index 25bb3bb..369e22d 100644
--- a/bomba_json_wsp_description.hpp
+++ b/bomba_json_wsp_description.hpp
@@ -106,6 +106,7 @@ public:
 
 	void addMember(std::string_view name, std::string_view description, Callback<> writer) override {
 		_argCount++; // The numbering printed starts at 1
+		_optional = false;
 		auto result = _output.writeObject(name, 4);
 		result.writeInt("def_order", _argCount);
 		writeJsonWspDocumentation(result, description);
@@ -114,6 +115,12 @@ public:
 		result.writeBool("optional", _optional);
 	}
 
+	void addArray(Callback<void(IPropertyDescriptionFiller&)> filler) override {
+		bool optional = _optional;
+		Detail::JsonWspTypicalDescriptions::addArray(filler);
+		_optional = optional; // Optional elements don't make the argument optional
+	}
+
 	void addOptional(Callback<void(IPropertyDescriptionFiller&)> filler) override {
 		_optional = true;
 		filler(*this);
-- 
2.43.0


From 4db113a92953bf0d5d8a4d4bdea8cf876a88fb9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:33 +0000
Subject: [PATCH 64/84] fix: invalid JSON if the first argument was omitted as
 false

---
 bomba_json.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/bomba_json.hpp b/bomba_json.hpp
index 90dac26..fc0cb4b 100644
--- a/bomba_json.hpp
+++ b/bomba_json.hpp
@@ -328,6 +328,7 @@ struct BasicJson {
 		OutputStringType& _contents;
 		int _depth = 0;
 		bool _skipNewline = false;
+		bool _objectEmpty = false; // If the first members were omitted, the index doesn't tell
 		
 		template <typename Num>
 		void writeValue(Num value) {
@@ -412,18 +413,21 @@ struct BasicJson {
 		void startWritingObject(Flags flags, int size) final override {
 			_contents += '{';
 			_depth++;
+			_objectEmpty = true;
 			if (size == 0)
 				_skipNewline = true;
 		}
 		void introduceObjectMember(Flags flags, std::string_view name, int index) final override {
-			if (index > 0)
+			if (index > 0 && !_objectEmpty)
 				_contents += ',';
+			_objectEmpty = false;
 			newLine();
 			writeString(flags, name);
 			_contents += " : ";
 		}
 		void endWritingObject(Flags flags) final override {
 			_depth--;
+			_objectEmpty = false;
 			newLine();
 			_contents += '}';
 		}
-- 
2.43.0


From 8431e76680f0e60f27848aed133d6e83e102fd73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:09 +0000
Subject: [PATCH 65/84] fix: data written after flushing a streaming buffer
 explicitly was lost

---
 bomba_core.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bomba_core.hpp b/bomba_core.hpp
index f22dd41..ab804b2 100644
--- a/bomba_core.hpp
+++ b/bomba_core.hpp
@@ -524,6 +524,7 @@ struct NonOwningStreamingBuffer : StreamingBuffer<StaticSize> {
 		if (this->size() > this->_sizeAtLastFlush) {
 			writer({this->_basic.data(), size_t(this->size() - this->_sizeAtLastFlush)});
 			this->_sizeAtLastFlush = this->size();
+			this->moveBuffer({this->_basic.data(), StaticSize});
 		}
 	}
 	NonOwningStreamingBuffer(Callback<void(std::span<const char>)> writer) : writer(writer) {}
-- 
2.43.0


From da17524b45346aab015832683fa17a5a8842222f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:00 +0000
Subject: [PATCH 66/84] fix: lambdas with overaligned captures were stored
 misaligned in RpcLambdaHolder

---
 bomba_dynamic_object.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bomba_dynamic_object.hpp b/bomba_dynamic_object.hpp
index c48583b..31ae68c 100644
--- a/bomba_dynamic_object.hpp
+++ b/bomba_dynamic_object.hpp
@@ -43,6 +43,7 @@ public:
 	template <IsAFunctor LambdaType>
 	RpcLambdaHolder(LambdaType&& from)
 		: _isLocal(sizeof(std::decay_t<RpcLambda<std::decay_t<LambdaType>>>) <= sizeof(_content.local) &&
+				alignof(std::decay_t<RpcLambda<std::decay_t<LambdaType>>>) <= alignof(decltype(_content)) &&
 				std::is_trivially_destructible_v<std::decay_t<LambdaType>>)
 		, _owning(true)
 	{
-- 
2.43.0


From 870b2aa612a63b462b86a9bd1fed0812d9ca5766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:28 +0000
Subject: [PATCH 67/84] fix: lambdas given to RpcLambdaHolder were copied
 instead of moved

---
 bomba_rpc_object.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bomba_rpc_object.hpp b/bomba_rpc_object.hpp
index 8b8fc9f..7d1e5ab 100644
--- a/bomba_rpc_object.hpp
+++ b/bomba_rpc_object.hpp
@@ -540,6 +540,7 @@ struct RpcLambdaInformationHolder {
 
 	public:
 		RpcLambdaParent(const LambdaType& lambda) : lambda(lambda) {}
+		RpcLambdaParent(LambdaType&& lambda) : lambda(std::move(lambda)) {}
 
 		constexpr static RpcLambdaInformationHolder info = RpcLambdaInformationHolder(
 					[] (std::string_view name, IRemoteCallableDescriptionFiller& filler) {
-- 
2.43.0


From 2fde5027724de65549f43c8893e0405709381b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:11 +0000
Subject: [PATCH 68/84] fix: names before separators of multiple characters
 were misread in paths

---
 bomba_core.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bomba_core.hpp b/bomba_core.hpp
index ab804b2..5fdd40f 100644
--- a/bomba_core.hpp
+++ b/bomba_core.hpp
@@ -844,10 +844,11 @@ struct PathWithSeparator {
 		const IRemoteCallable* current = root;
 		while (start < path.end()) {
 			auto end = start;
+			int separatorSize = 0;
 			while (end != path.end()) {
 				for (int i = 0; (end + i) != path.end() && *(end + i) == Separator[i]; i++) {
 					if (i + 1 == Separator.size()) {
-						end += i;
+						separatorSize = Separator.size();
 						goto foundSeparator;
 					}
 				}
@@ -858,8 +859,7 @@ struct PathWithSeparator {
 			current = current->getChild(std::string_view(start, end));
 			if (!current)
 				return nullptr;
-			end++;
-			start = end;
+			start = end + separatorSize;
 		}
 		return current;
 	}
-- 
2.43.0


From 5c9f12aad7c6d51dff3602eb6ca2228b6d396ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:10 +0000
Subject: [PATCH 69/84] fix: methods of an object moved into RpcLambdaHolder
 kept using the original one

---
 bomba_core.hpp           | 9 +++++++++
 bomba_dynamic_object.hpp | 1 +
 2 files changed, 10 insertions(+)

diff --git a/bomba_core.hpp b/bomba_core.hpp
index 5fdd40f..a374d14 100644
--- a/bomba_core.hpp
+++ b/bomba_core.hpp
@@ -802,6 +802,15 @@ public:
 	void setResponder(IRpcResponder& responder) {
 		_responder = &responder;
 	}
+
+	// Corrects the addresses of parents known to children after this was moved together with them
+	void adoptChildren() {
+		for (int i = 0; auto child = const_cast<IRemoteCallable*>(getChild(i)); i++) {
+			if (child->_parent != this)
+				setSelfAsParent(child);
+			child->adoptChildren();
+		}
+	}
 	
 	// Should call the function with a prepared input of arguments assumed to be object members (or null), prepared output,
 	// a functor that starts writing the result, a functor that writes an error message and a user identifier (or nullopt)
diff --git a/bomba_dynamic_object.hpp b/bomba_dynamic_object.hpp
index 31ae68c..481a08a 100644
--- a/bomba_dynamic_object.hpp
+++ b/bomba_dynamic_object.hpp
@@ -64,6 +64,7 @@ public:
 		, _owning(true)
 	{
 		_content.held = new T(std::move(instance));
+		_content.held->adoptChildren();
 	}
 
 	RpcLambdaHolder(RpcLambdaHolder&& other) {
-- 
2.43.0


From 90200dea19807df2447ff39cd4953adc8d61b148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:52 +0000
Subject: [PATCH 70/84] fix: JavaScript client outside a browser could not use
 addresses without a scheme and a slash like in the documentation

---
 public_html/bomba.js | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/public_html/bomba.js b/public_html/bomba.js
index 50e69ec..6416ca6 100644
--- a/public_html/bomba.js
+++ b/public_html/bomba.js
@@ -2,6 +2,11 @@ async function getJson(target, basePath = "", extraParams) {
 	if (typeof window === "undefined") {
 		if (!basePath) {
 			basePath = 'http://0.0.0.0:8080/';
+		} else if (!basePath.includes("://")) {
+			basePath = 'http://' + basePath;
+		}
+		if (!basePath.endsWith("/")) {
+			basePath += "/";
 		}
 		if (getJson.fetch === undefined) {
 			getJson.fetch = (...args) => import("node-fetch").then(({default: fetch}) => fetch(...args));
-- 
2.43.0


From 9ff4a41e903f9ab81aa8166791fb82e53843db60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:09 +0000
Subject: [PATCH 71/84] fix: GUI of objects with array members could not be
 submitted

---
 public_html/bomba.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/public_html/bomba.js b/public_html/bomba.js
index 6416ca6..a8133a0 100644
--- a/public_html/bomba.js
+++ b/public_html/bomba.js
@@ -170,7 +170,7 @@ function generateApiClass(name, definition, types) {
 	code += "\t\tcontainer.className = 'bombaObjectBox'\n";
 	code += "\t\tlet valueGetters = []\n";
 	for (const [name, type] of Object.entries(definition)) {
-		code += `\t\tlet [elem_${name}, getter_${name}] = makeGuiForArg("${ humanise(name) }", "${type}", undefined, types)\n`;
+		code += `\t\tlet [elem_${name}, getter_${name}] = makeGuiForArg("${ humanise(name) }", ${ JSON.stringify(type) }, undefined, types)\n`;
 		code += `\t\tcontainer.appendChild(elem_${name})\n`;
 		code += `\t\tvalueGetters.push(() => this.${name} = getter_${name}())\n`;
 	}
-- 
2.43.0


From ead2a973cbee88594ab462a6e71cc264941f4620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:12 +0000
Subject: [PATCH 72/84] fix: GUI of functions with arguments that are maps
 could not be generated

---
 public_html/bomba.js | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/public_html/bomba.js b/public_html/bomba.js
index a8133a0..c664e97 100644
--- a/public_html/bomba.js
+++ b/public_html/bomba.js
@@ -99,6 +99,9 @@ function makeGuiForArg(name, type, identifier, types) {
 	} else if (Array.isArray(typeObtained)) {
 		const space = document.createElement("div");
 		return [space, () => { return []; }];
+	} else if (typeObtained === "object") {
+		const space = document.createElement("div");
+		return [space, () => { return {}; }];
 	} else {
 		const space = document.createElement("fieldset");
 		space.className = "bombaFrame";
-- 
2.43.0


From d00b2e9d8a9c665883d0fe9134bdfa3251098db1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:39 +0000
Subject: [PATCH 73/84] fix: JsonRpcClient did not pass its template arguments
 to its parts

---
 bomba_json_rpc.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bomba_json_rpc.hpp b/bomba_json_rpc.hpp
index da914dd..15790b8 100644
--- a/bomba_json_rpc.hpp
+++ b/bomba_json_rpc.hpp
@@ -353,12 +353,12 @@ struct HttpOwner {
 
 
 template <BetterAssembledString StringType = std::string, std::derived_from<GeneralisedBuffer> ExpandingBufferType = ExpandingBuffer<>>
-class JsonRpcClient : private Detail::HttpOwner<StringType, ExpandingBufferType>, public JsonRpcClientProtocol<HttpClient<StringType>> {
+class JsonRpcClient : private Detail::HttpOwner<StringType, ExpandingBufferType>, public JsonRpcClientProtocol<HttpClient<StringType, ExpandingBufferType>, StringType> {
 	using HttpOwner = Detail::HttpOwner<StringType, ExpandingBufferType>;
 public:
 	JsonRpcClient(IRemoteCallable& callable, ITcpClient& client, std::string_view virtualHost)
 			: Detail::HttpOwner<StringType, ExpandingBufferType>{{client, virtualHost}},
-			  JsonRpcClientProtocol<HttpClient<StringType>>(callable, HttpOwner::http) {}
+			  JsonRpcClientProtocol<HttpClient<StringType, ExpandingBufferType>, StringType>(callable, HttpOwner::http) {}
 
 	bool hasResponse(RequestToken token) override {
 		return static_cast<IRpcResponder&>(HttpOwner::http).hasResponse(token);
-- 
2.43.0


From 6fcfc48e2e777c09c5d993a58aa1ecfdd9e84465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:06 +0000
Subject: [PATCH 74/84] fix: binary server did not write response sizes in the
 endianness of the NumWriter

---
 bomba_binary_protocol.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bomba_binary_protocol.hpp b/bomba_binary_protocol.hpp
index 4573a46..f464a8a 100644
--- a/bomba_binary_protocol.hpp
+++ b/bomba_binary_protocol.hpp
@@ -319,7 +319,7 @@ public:
 				return ServerReaction::DISCONNECT;
 			if (uint64_t(outputBuffer.size()) > uint64_t(std::numeric_limits<SizeType>::max()))
 				return ServerReaction::DISCONNECT; // The response can't be represented
-			SizeType outputSize = outputBuffer.size();
+			std::array<char, sizeof(SizeType)> outputSize = NumWriter::prepareNumber(SizeType(outputBuffer.size()));
 			memcpy(&std::span<char>(outputBuffer)[sizePosition], &outputSize, sizeof(outputSize));
 
 			std::string_view response = outputBuffer;
-- 
2.43.0


From 26398a7857737f3739f1e8dab07265ca0079d566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:17 +0000
Subject: [PATCH 75/84] fix: false arguments omitted in the binary protocol
 shifted the following ones

---
 bomba_binary_protocol.hpp | 4 ++++
 bomba_core.hpp            | 3 +++
 bomba_rpc_object.hpp      | 3 ++-
 3 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/bomba_binary_protocol.hpp b/bomba_binary_protocol.hpp
index f464a8a..94a5fad 100644
--- a/bomba_binary_protocol.hpp
+++ b/bomba_binary_protocol.hpp
@@ -256,6 +256,10 @@ struct BinaryFormat {
 			if (present)
 				writeValue();
 		}
+
+		bool canOmitMembers(Flags flags) const final override {
+			return !(flags & SerialisationFlags::OBJECT_LAYOUT_KNOWN);
+		}
 	};
 };
 
diff --git a/bomba_core.hpp b/bomba_core.hpp
index a374d14..6b791ed 100644
--- a/bomba_core.hpp
+++ b/bomba_core.hpp
@@ -227,6 +227,9 @@ struct IStructuredOutput {
 	// Should write an optional value, empty if it's absent and calling the callback to write the value if present
 	virtual void writeOptional(Flags flags, bool present, Callback<> writeValue) = 0;
 
+	// Should return if members of objects can be left out with these flags, false if they are identified only by their order
+	virtual bool canOmitMembers(Flags) const { return true; }
+
 	virtual ~IStructuredOutput() = default;
 
 	// Convenience classes and methods for using this interface in a less error prone way
diff --git a/bomba_rpc_object.hpp b/bomba_rpc_object.hpp
index 7d1e5ab..3e1a0ff 100644
--- a/bomba_rpc_object.hpp
+++ b/bomba_rpc_object.hpp
@@ -493,7 +493,8 @@ struct RpcLambdaInformationHolder {
 				TypedSerialiser<First>::serialiseMember(out, first, flags);
 			};
 			if constexpr(std::is_same_v<bool, First>) {
-				if (first || !(flags & SerialisationFlags::OMIT_FALSE))
+				if (first || !(flags & SerialisationFlags::OMIT_FALSE)
+						|| !out.canOmitMembers(SerialisationFlags::Flags(Flags | SerialisationFlags::OBJECT_LAYOUT_KNOWN)))
 					write();
 			} else {
 				write();
-- 
2.43.0


From 84d6060ed19116df6b18a8d32af32ad1bf267fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:30 +0000
Subject: [PATCH 76/84] fix: text resembling an encoded character reference was
 decoded as one

---
 bomba_http.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bomba_http.hpp b/bomba_http.hpp
index 7c3d397..639d8e4 100644
--- a/bomba_http.hpp
+++ b/bomba_http.hpp
@@ -204,7 +204,7 @@ void demangleHttpResponse(std::string_view input, StringType& output) {
 			};
 			int decoded = urlDecode(i);
 			if (decoded == '&' && i + 8 < std::ssize(input)) [[unlikely]] {
-				if (urlDecode(i + 3) == '#' && input[i + 6] >= '0' && input[i + 6] <= '9') {
+				if (input[i + 3] == '%' && urlDecode(i + 3) == '#' && input[i + 6] >= '0' && input[i + 6] <= '9') {
 					int numberEnd = i + 7;
 					while (numberEnd < std::ssize(input) && input[numberEnd] >= '0' && input[numberEnd] <= '9')
 						numberEnd++;
-- 
2.43.0


From 66fccb0a63aefae0a2347bdc227dd5ca108a59aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:32 +0000
Subject: [PATCH 77/84] fix: documentation of methods was not used by the
 JavaScript client and could break its code

---
 public_html/bomba.js | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/public_html/bomba.js b/public_html/bomba.js
index c664e97..222c328 100644
--- a/public_html/bomba.js
+++ b/public_html/bomba.js
@@ -186,6 +186,10 @@ function generateApiClass(name, definition, types) {
 	return made;
 }
 
+function commentText(text) {
+	return text.replaceAll('*/', '* /').replaceAll(/[\r\n\u2028\u2029]+/g, ' ');
+}
+
 function generateApiCall(name, argNames, argDefinitions, docLines, returnInfo, path) {
 	if (generateApiCall.messageIndex === undefined) {
 		generateApiCall.messageIndex = 0;
@@ -193,16 +197,16 @@ function generateApiCall(name, argNames, argDefinitions, docLines, returnInfo, p
 	
 	let code = "/**\n";
 	if (docLines.length > 0) {
-		for (const line of returnInfo.doc_lines) {
-			code += ` * ${line}\n`;
+		for (const line of docLines) {
+			code += ` * ${commentText(line)}\n`;
 		}
 		code += " *\n";
 	}
 	for (let i = 0; i < argNames.length; i++) {
 		const type = extractType(argDefinitions[i].type);
-		code += ` * @param {${type}} arg_${ argNames[i] } ${ argDefinitions[i].doc_lines.join(" ") } \n`;
+		code += ` * @param {${type}} arg_${ argNames[i] } ${ commentText(argDefinitions[i].doc_lines.join(" ")) } \n`;
 	}
-	code += ` * @return {${extractType(returnInfo.type)}} ${ returnInfo.doc_lines.join(" ") } \n`;
+	code += ` * @return {${extractType(returnInfo.type)}} ${ commentText(returnInfo.doc_lines.join(" ")) } \n`;
 	
 	code += " */\nasync (";
 	for (let i = 0; i < argNames.length; i++) {
-- 
2.43.0


From c49955b68f31d2d115d6820c4c6ec414260bf717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:05 +0000
Subject: [PATCH 78/84] fix: TlsSyncClient didn't return responses that came
 together or in parts, didn't keep polled responses and threw exceptions of
 boost

---
 tls/tls_sync_client.hpp | 61 ++++++++++++++++++++++++++---------------
 1 file changed, 39 insertions(+), 22 deletions(-)

diff --git a/tls/tls_sync_client.hpp b/tls/tls_sync_client.hpp
index 5a40884..e864985 100644
--- a/tls/tls_sync_client.hpp
+++ b/tls/tls_sync_client.hpp
@@ -1,5 +1,5 @@
-#ifndef BOMBA_SYNC_CLIENT
-#define BOMBA_SYNC_CLIENT
+#ifndef BOMBA_TLS_SYNC_CLIENT
+#define BOMBA_TLS_SYNC_CLIENT
 
 #ifndef BOMBA_CORE // Needed to run in godbolt
 #include "../bomba_core.hpp"
@@ -38,39 +38,51 @@ class TlsSyncClient : public ITcpClient {
 		// See if some response was already received
 		auto found = _responses.find(tokenSought);
 		if (found != _responses.end()) {
-			auto [reaction, token, position] = reader(found->second, true);
-			if (reaction == ServerReaction::OK || reaction == ServerReaction::DISCONNECT)
+			if constexpr(!doWait) {
+				reader(found->second, true); // Only checks its presence
 				return;
+			}
+			std::vector<char> response = std::move(found->second);
+			_responses.erase(found);
+			auto [reaction, token, position] = reader(response, true);
 			if (reaction == ServerReaction::READ_ON)
 				logicError("First it was WRONG_REPLY, now it is READ_ON?");
+			return;
 		}
 
 		// Wait for a reply if none was received before
 		std::array<char, 2048> responseBuffer;
-		bool wasReceived = false;
-		while (!wasReceived) {
-			std::error_code error;
+		while (true) {
+			// Some responses may have been received with the previous ones
+			while (!_leftovers.empty()) {
+				auto [reaction, tokenReceived, position] = reader(_leftovers, false);
+				if (reaction == ServerReaction::DISCONNECT)
+					return;
+				if (reaction == ServerReaction::READ_ON)
+					break;
+				if (reaction == ServerReaction::WRONG_REPLY || !doWait) { // Without waiting, it will be obtained later
+					_responses.insert(std::make_pair(tokenReceived, std::vector<char>(_leftovers.begin(), _leftovers.begin() + position)));
+				}
+				_leftovers.erase(_leftovers.begin(), _leftovers.begin() + position);
+				if (reaction == ServerReaction::OK)
+					return;
+			}
+
+			// The socket may have only a part of an encrypted block or the data may be already decrypted, so available() isn't useful
+			boost::system::error_code error;
+			if constexpr(!doWait)
+				_socket.next_layer().non_blocking(true);
+			auto received = _socket.read_some(boost::asio::buffer(responseBuffer), error);
 			if constexpr(!doWait) {
-				if (_socket.next_layer().available() == 0)
+				_socket.next_layer().non_blocking(false);
+				if (error == boost::asio::error::would_block)
 					break;
 			}
-			auto received = _socket.read_some(boost::asio::buffer(responseBuffer));
 			if (error) {
 				remoteError(error.message().c_str());
 				break;
 			}
 			_leftovers.insert(_leftovers.end(), responseBuffer.begin(), responseBuffer.begin() + received);
-			while (!_leftovers.empty()) {
-				auto [reaction, tokenReceived, position] = reader(_leftovers, false);
-				if (reaction == ServerReaction::OK)
-					wasReceived = true;
-				else if (reaction == ServerReaction::DISCONNECT || reaction == ServerReaction::READ_ON) {
-					return;
-				} else if (reaction == ServerReaction::WRONG_REPLY) {
-					_responses.insert(std::make_pair(tokenReceived, std::vector<char>(_leftovers.begin(), _leftovers.begin() + position)));
-				} // else read on
-				_leftovers = std::vector<char>(_leftovers.begin() + position, _leftovers.end());
-			}
 		}
 	}
 
@@ -83,7 +95,12 @@ public:
 		if (!_socket.next_layer().is_open())
 			connect();
 		while (written.size() > 0) {
-			auto inSocket = _socket.write_some(boost::asio::buffer(written.data(), written.size()));
+			boost::system::error_code error;
+			auto inSocket = _socket.write_some(boost::asio::buffer(written.data(), written.size()), error);
+			if (error) {
+				remoteError(error.message().c_str());
+				return;
+			}
 			written = std::span<char>(written.begin() + inSocket, written.end());
 		}
 	}
@@ -102,4 +119,4 @@ public:
 };
 
 } // namespace Bomba
-#endif // BOMBA_SYNC_CLIENT
+#endif // BOMBA_TLS_SYNC_CLIENT
-- 
2.43.0


From 490b9ebebcdcf43c7a1bd47e069197cb6f9a1791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:30 +0000
Subject: [PATCH 79/84] fix: Getting the result of a failed call without a
 result again waited for another response

---
 bomba_rpc_object.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bomba_rpc_object.hpp b/bomba_rpc_object.hpp
index 3e1a0ff..2a53e4e 100644
--- a/bomba_rpc_object.hpp
+++ b/bomba_rpc_object.hpp
@@ -331,6 +331,7 @@ template <>
 class Future<void> : Detail::FutureBase<void> {
 	using Base = Detail::FutureBase<void>;
 	mutable bool _done = false;
+	mutable bool _requested = false; // Its response won't arrive again if reading it failed
 public:
 	using Base::FutureBase;
 	Future() = default;
@@ -338,6 +339,9 @@ public:
 	void get() const {
 		if (_done || !Base::_responder) // No responder means it was called locally
 			return;
+		if (_requested)
+			logicError("The call has failed");
+		_requested = true;
 		Base::_reader->readResponse(Base::_responder, Base::_token);
 		_done = true;
 	}
-- 
2.43.0


From bb09a0284614a5c6386ce6adbdaa65a08f8d5093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:11 +0000
Subject: [PATCH 80/84] fix: TCP server stopped accepting connections after
 failing to accept one

---
 bomba_tcp_server.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/bomba_tcp_server.hpp b/bomba_tcp_server.hpp
index 985fac3..7b2d6f6 100644
--- a/bomba_tcp_server.hpp
+++ b/bomba_tcp_server.hpp
@@ -216,11 +216,10 @@ class TcpServer {
 
 	void startSession() {
 		_acceptor.async_accept(_context, [&] (std::error_code error, Net::ip::tcp::socket socket) {
-			if (error) {
-//				std::cout << "Error: " << error.message() << std::endl;
+			if (error == std::errc::operation_canceled) {
 				return;
 			}
-			{
+			if (!error) { // Otherwise it may be a lack of resources or a connection closed too early, others can follow
 				std::lock_guard lock(_sessionsLock);
 				int index = _sessions.size();
 				_sessions.emplace_back(std::make_unique<Session>(std::move(socket), _responder, *this, index));
-- 
2.43.0


From ebe8eb8437f5e5eb968e5196f9e3b266c492acde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:26 +0000
Subject: [PATCH 81/84] fix: crash when asking for the average response time
 before the first response

---
 bomba_tcp_server.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bomba_tcp_server.hpp b/bomba_tcp_server.hpp
index 7b2d6f6..e429afe 100644
--- a/bomba_tcp_server.hpp
+++ b/bomba_tcp_server.hpp
@@ -260,7 +260,7 @@ public:
 	}
 
 	std::chrono::nanoseconds averageResponseTime() {
-		return _totalResponseTime / _totalResponses;
+		return _totalResponses ? _totalResponseTime / _totalResponses : std::chrono::nanoseconds(0);
 	}
 };
 
-- 
2.43.0


From 4827dbb0bdb6f5583c3bb9e2c05a844c5e82c300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:07 +0000
Subject: [PATCH 82/84] fix: Accessing an URL of an object that can't be called
 with arguments got an empty successful response

---
 bomba_http.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/bomba_http.hpp b/bomba_http.hpp
index 639d8e4..871fb5b 100644
--- a/bomba_http.hpp
+++ b/bomba_http.hpp
@@ -564,9 +564,12 @@ struct DownloadIfFilePresent : IHttpDispatcher {
 				NullStructredOutput nullResponse;
 				method->call(args, nullResponse, {}, {});
 			} else {
-				outputProvider.writeUnknownSize(name, [&] (GeneralisedBuffer& output) {
-					typename OutputFormat::Output response(output);
-					method->call(args, response, {}, {});
+				ExpandingBuffer<> output;
+				typename OutputFormat::Output response(output);
+				if (!method->call(args, response, {}, {}))
+					return false; // Not something that can be called
+				outputProvider.writeKnownSize(name, output.size(), [&] (GeneralisedBuffer& written) {
+					written += std::string_view(output);
 				});
 			}
 			return true;
-- 
2.43.0


From a5eeeae6cb01fb307fab631f6c9f23e76d0eca9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:35 +0000
Subject: [PATCH 83/84] fix: Responses of methods called by accessing an URL
 did not use the buffer set for the server

---
 bomba_http.hpp | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/bomba_http.hpp b/bomba_http.hpp
index 871fb5b..a416716 100644
--- a/bomba_http.hpp
+++ b/bomba_http.hpp
@@ -564,13 +564,16 @@ struct DownloadIfFilePresent : IHttpDispatcher {
 				NullStructredOutput nullResponse;
 				method->call(args, nullResponse, {}, {});
 			} else {
-				ExpandingBuffer<> output;
-				typename OutputFormat::Output response(output);
-				if (!method->call(args, response, {}, {}))
-					return false; // Not something that can be called
-				outputProvider.writeKnownSize(name, output.size(), [&] (GeneralisedBuffer& written) {
-					written += std::string_view(output);
-				});
+				struct NotCalled {};
+				try {
+					outputProvider.writeUnknownSize(name, [&] (GeneralisedBuffer& output) {
+						typename OutputFormat::Output response(output);
+						if (!method->call(args, response, {}, {}))
+							throw NotCalled(); // Not something that can be called
+					});
+				} catch (NotCalled&) {
+					return false;
+				}
 			}
 			return true;
 		} else return fileFound;
-- 
2.43.0


From 39618e7c7af6254ff9a9b69c5046d380a1036e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:37 +0000
Subject: [PATCH 84/84] fix: Errors reported by callables through the callback
 were responded to as successes in HTTP forms and URLs

---
 bomba_http.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/bomba_http.hpp b/bomba_http.hpp
index a416716..5257e3e 100644
--- a/bomba_http.hpp
+++ b/bomba_http.hpp
@@ -545,7 +545,8 @@ public:
 			return false;
 		typename HtmlMessageEncoding<ResponseStringType>::Input input = {std::string_view(request.data(), request.size())};
 		NullStructredOutput nullOutput;
-		return method->call(&input, nullOutput, {}, {});
+		bool failed = false;
+		return method->call(&input, nullOutput, {}, [&] (std::string_view) { failed = true; }) && !failed;
 	}
 };
 
@@ -568,8 +569,9 @@ struct DownloadIfFilePresent : IHttpDispatcher {
 				try {
 					outputProvider.writeUnknownSize(name, [&] (GeneralisedBuffer& output) {
 						typename OutputFormat::Output response(output);
-						if (!method->call(args, response, {}, {}))
-							throw NotCalled(); // Not something that can be called
+						bool failed = false;
+						if (!method->call(args, response, {}, [&] (std::string_view) { failed = true; }) || failed)
+							throw NotCalled(); // Not something that can be called or it reported an error
 					});
 				} catch (NotCalled&) {
 					return false;
-- 
2.43.0

