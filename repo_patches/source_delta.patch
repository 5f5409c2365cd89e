From 3359fc2a8768ce1a2c65e1f5292e08e2236019ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:27 +0000
Subject: [PATCH 01/99] fix: report an expired token as timed out, not as
 cancelled, from ConditionVariable::Wait

---
 stingraykit/thread/posix/PosixConditionVariable.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stingraykit/thread/posix/PosixConditionVariable.cpp b/stingraykit/thread/posix/PosixConditionVariable.cpp
index 986419e..8c7a11f 100644
--- a/stingraykit/thread/posix/PosixConditionVariable.cpp
+++ b/stingraykit/thread/posix/PosixConditionVariable.cpp
@@ -103,7 +103,7 @@ namespace stingray
 	{
 		CancellationHolder holder(mutex, *this, token);
 		if (holder.IsCancelled())
-			return ConditionWaitResult::Cancelled;
+			return !token.IsCancelled() && token.IsTimedOut() ? ConditionWaitResult::TimedOut : ConditionWaitResult::Cancelled;
 
 		const optional<TimeDuration> timeout = token.GetTimeout();
 		if (!timeout)
-- 
2.43.0


From 30a41a1c913084c2b895e558c867091c21395fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:51 +0000
Subject: [PATCH 02/99] fix: a wait or sleep on a JoiningCancellationToken
 whose one parent is already cancelled must not block

---
 stingraykit/thread/JoiningCancellationToken.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/stingraykit/thread/JoiningCancellationToken.cpp b/stingraykit/thread/JoiningCancellationToken.cpp
index 3d8e3fa..12f9e7a 100644
--- a/stingraykit/thread/JoiningCancellationToken.cpp
+++ b/stingraykit/thread/JoiningCancellationToken.cpp
@@ -48,9 +48,13 @@ namespace stingray
 	bool JoiningCancellationToken::TryRegisterCancellationHandler(ICancellationHandler& handler) const
 	{
 		_firstRegistered = _firstRegistrator.TryRegisterCancellationHandler(handler);
-		_secondRegistered = _secondRegistrator.TryRegisterCancellationHandler(handler);
+		_secondRegistered = _firstRegistered && _secondRegistrator.TryRegisterCancellationHandler(handler);
 
-		return _firstRegistered || _secondRegistered;
+		// One of the tokens is over already: keep the other registration only if its cancellation is in progress and is going to call the handler
+		if (_firstRegistered && !_secondRegistered)
+			_firstRegistered = !_firstRegistrator.TryUnregisterCancellationHandler();
+
+		return _firstRegistered;
 	}
 
 
-- 
2.43.0


From b63313bdd8d814dc5597ae19cde82663f23f101f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:14 +0000
Subject: [PATCH 03/99] fix: a spurious wake-up of one waiter must not release
 it from Barrier::Wait before the others have arrived

---
 stingraykit/thread/Barrier.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/stingraykit/thread/Barrier.h b/stingraykit/thread/Barrier.h
index 04d04da..ab8520a 100644
--- a/stingraykit/thread/Barrier.h
+++ b/stingraykit/thread/Barrier.h
@@ -46,7 +46,8 @@ namespace stingray
 				_cv.Broadcast();
 			}
 			else
-				_cv.Wait(_mutex);
+				while (!_releasing)
+					_cv.Wait(_mutex);
 			if (--_currentCount == 0)
 			{
 				_releasing = false;
-- 
2.43.0


From 59c20ceee614d598b295f12875d1dd6271ce643d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:26 +0000
Subject: [PATCH 04/99] fix: a timer task released from inside itself must stay
 alive until it returns

---
 stingraykit/timer/Timer.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/stingraykit/timer/Timer.cpp b/stingraykit/timer/Timer.cpp
index 84b2e3f..5125bca 100644
--- a/stingraykit/timer/Timer.cpp
+++ b/stingraykit/timer/Timer.cpp
@@ -293,13 +293,15 @@ namespace stingray
 			if (!guard)
 				return;
 
+			const TaskType task = ci->GetTask();
+
 			if (_profileTimeout)
 			{
-				AsyncProfiler::Session profiler_session(ExecutorsProfiler::Instance().GetProfiler(), Bind(&Timer::GetProfilerMessage, this, wrap_const_ref(ci->GetTask())), *_profileTimeout, AsyncProfiler::NameGetterTag());
-				ci->GetTask()();
+				AsyncProfiler::Session profiler_session(ExecutorsProfiler::Instance().GetProfiler(), Bind(&Timer::GetProfilerMessage, this, wrap_const_ref(task)), *_profileTimeout, AsyncProfiler::NameGetterTag());
+				task();
 			}
 			else
-				ci->GetTask()();
+				task();
 		}
 		catch (const std::exception& ex)
 		{ _exceptionHandler(ex); }
-- 
2.43.0


From 9ba7ae64cb0a4a668528f07401b68e68a6d7be38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:18 +0000
Subject: [PATCH 05/99] fix: swapping promises must also swap whether their
 future was retrieved

---
 stingraykit/future.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/stingraykit/future.h b/stingraykit/future.h
index 608fc6d..191ba54 100644
--- a/stingraykit/future.h
+++ b/stingraykit/future.h
@@ -297,7 +297,7 @@ namespace stingray
 		{ _futureImpl->set_exception(MakeExceptionPtr(BrokenPromise())); }
 
 		void swap(promise& other)
-		{ _futureImpl.swap(other._futureImpl); }
+		{ _futureImpl.swap(other._futureImpl); std::swap(_futureRetrieved, other._futureRetrieved); }
 
 		future<ResultType> get_future()
 		{ STINGRAYKIT_CHECK(!_futureRetrieved, FutureAlreadyRetrieved()); _futureRetrieved = true; return future<ResultType>(_futureImpl); }
@@ -329,7 +329,7 @@ namespace stingray
 		{ _futureImpl->set_exception(MakeExceptionPtr(BrokenPromise())); }
 
 		void swap(promise& other)
-		{ _futureImpl.swap(other._futureImpl); }
+		{ _futureImpl.swap(other._futureImpl); std::swap(_futureRetrieved, other._futureRetrieved); }
 
 		future<ResultType> get_future()
 		{ STINGRAYKIT_CHECK(!_futureRetrieved, FutureAlreadyRetrieved()); _futureRetrieved = true; return future<ResultType>(_futureImpl); }
-- 
2.43.0


From 3a050d40694ff63d15fd2dea9122c8a4f52a69ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:41 +0000
Subject: [PATCH 06/99] fix: ThreadlessTokenMap must not lose tokens added by
 the actions of the tokens it releases

---
 stingraykit/Token.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/stingraykit/Token.h b/stingraykit/Token.h
index 931ac94..eeb067a 100644
--- a/stingraykit/Token.h
+++ b/stingraykit/Token.h
@@ -276,10 +276,16 @@ namespace stingray
 		{ return BracketsOperatorProxy(_tokens, std::move(key)); }
 
 		void release(const Key& key)
-		{ _tokens.erase(key); }
+		{
+			std::vector<Token> tokens;
+
+			const std::pair<typename Tokens::iterator, typename Tokens::iterator> range = _tokens.equal_range(key);
+			tokens.assign(values_iterator(range.first), values_iterator(range.second));
+			_tokens.erase(range.first, range.second);
+		}
 
 		void release_all()
-		{ _tokens.clear(); }
+		{ Tokens().swap(_tokens); }
 	};
 
 
-- 
2.43.0


From 167588fdbe2d82fca1ecc9040ae66aadfcba1dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:50 +0000
Subject: [PATCH 07/99] fix: a failing rollback action must not make
 ActionTransaction repeat the rollbacks already done

---
 stingraykit/ActionTransaction.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/stingraykit/ActionTransaction.cpp b/stingraykit/ActionTransaction.cpp
index 8d2b484..cfc8aa1 100644
--- a/stingraykit/ActionTransaction.cpp
+++ b/stingraykit/ActionTransaction.cpp
@@ -47,8 +47,12 @@ namespace stingray
 	{
 		STINGRAYKIT_CHECK(_active, "Transaction is inactive!");
 
-		for (RollbackSequence::reverse_iterator it = _rollbackSequence.rbegin(); it != _rollbackSequence.rend(); ++it)
-			(*it)();
+		while (!_rollbackSequence.empty())
+		{
+			const RollbackFunc rollbackFunc = _rollbackSequence.back();
+			_rollbackSequence.pop_back();
+			rollbackFunc();
+		}
 
 		_active = false;
 	}
-- 
2.43.0


From bd9849a611a1558acdfa7845d0fc3723a4dd85d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:14 +0000
Subject: [PATCH 08/99] fix: clearing a wrapped-around circular buffer must
 empty it, not fill it

---
 stingraykit/io/CircularBufferBase.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/stingraykit/io/CircularBufferBase.h b/stingraykit/io/CircularBufferBase.h
index edb2264..9ac1b74 100644
--- a/stingraykit/io/CircularBufferBase.h
+++ b/stingraykit/io/CircularBufferBase.h
@@ -210,7 +210,8 @@ namespace stingray
 				s_logger.Warning() << "ro: " << _readOffset << ", wo: " << _writeOffset << ", ls: " << _lockedDataSize;
 			}
 
-			if (_readOffset + _lockedDataSize < GetStorageSize())
+			_dataIsContiguous = _readOffset + _lockedDataSize < GetStorageSize();
+			if (_dataIsContiguous)
 				_writeOffset = _readOffset + _lockedDataSize;
 			else
 				_writeOffset = _readOffset + _lockedDataSize - GetStorageSize();
-- 
2.43.0


From 359fc0ade0005f80e2537da44fbc87fd4aabe91a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:35 +0000
Subject: [PATCH 09/99] fix: PacketBuffer must accept any packet up to its size
 when it is empty

---
 stingraykit/io/PacketBuffer.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/stingraykit/io/PacketBuffer.h b/stingraykit/io/PacketBuffer.h
index f91f97c..450974e 100644
--- a/stingraykit/io/PacketBuffer.h
+++ b/stingraykit/io/PacketBuffer.h
@@ -82,6 +82,12 @@ namespace stingray
 			MutexLock l1(_writeMutex); // we need this mutex because write can be called simultaneously from several threads
 			MutexLock l2(_bufferMutex);
 
+			if (_packetQueue.empty())
+			{
+				_buffer.Clear(); // otherwise a packet could wait forever for contiguous space in an empty buffer
+				_paddingSize = 0;
+			}
+
 			BithreadCircularBuffer::Writer w = _buffer.Write();
 			size_t padding_size = (w.size() < data.size() && w.IsBufferEnd()) ? w.size() : 0;
 			if (_buffer.GetFreeSize() < padding_size + data.size())
-- 
2.43.0


From c07576ff86f2998f57cf0bc4d23988c3483cc46d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:00 +0000
Subject: [PATCH 10/99] fix: PipeDataSource must offer again what its consumer
 did not take

---
 stingraykit/io/PipeDataSource.cpp | 23 +++++++++++++----------
 stingraykit/io/PipeDataSource.h   |  2 ++
 2 files changed, 15 insertions(+), 10 deletions(-)

diff --git a/stingraykit/io/PipeDataSource.cpp b/stingraykit/io/PipeDataSource.cpp
index e2a5f00..059a314 100644
--- a/stingraykit/io/PipeDataSource.cpp
+++ b/stingraykit/io/PipeDataSource.cpp
@@ -11,7 +11,7 @@ namespace stingray
 {
 
 	PipeDataSource::PipeDataSource(const IPipePtr& pipe, size_t bufferSize)
-		: _pipe(pipe), _buffer(bufferSize)
+		: _pipe(pipe), _buffer(bufferSize), _bufferOffset(), _bufferSize()
 	{ }
 
 
@@ -19,15 +19,18 @@ namespace stingray
 	{
 		try
 		{
-			const size_t read = _pipe->Read(_buffer, token);
-			if (read == 0)
-				return;
-
-			const size_t processed = consumer.Process(ConstByteData(_buffer, 0, read), token);
-			if (processed == 0)
-				return;
-
-			STINGRAYKIT_CHECK(processed == read, NotImplementedException());
+			if (_bufferOffset == _bufferSize)
+			{
+				const size_t size = _pipe->Read(_buffer, token);
+				if (size == 0)
+					return;
+
+				_bufferOffset = 0;
+				_bufferSize = size;
+			}
+
+			// what the consumer did not take is offered again by the next read
+			_bufferOffset += consumer.Process(ConstByteData(_buffer, _bufferOffset, _bufferSize - _bufferOffset), token);
 		}
 		catch (const PipeClosedException&)
 		{
diff --git a/stingraykit/io/PipeDataSource.h b/stingraykit/io/PipeDataSource.h
index cd9295a..f806f44 100644
--- a/stingraykit/io/PipeDataSource.h
+++ b/stingraykit/io/PipeDataSource.h
@@ -22,6 +22,8 @@ namespace stingray
 		IPipePtr	_pipe;
 
 		ByteArray	_buffer;
+		size_t		_bufferOffset;
+		size_t		_bufferSize;
 
 	public:
 		explicit PipeDataSource(const IPipePtr& pipe, size_t bufferSize = DefaultBufferSize);
-- 
2.43.0


From 2946daef612aafec86fca7bc42472324725d557a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:09 +0000
Subject: [PATCH 11/99] fix: PagedBuffer must keep its read position when data
 is popped or pushed during a read

---
 stingraykit/io/PagedBuffer.cpp | 12 ++++++++----
 stingraykit/io/PagedBuffer.h   |  1 +
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/stingraykit/io/PagedBuffer.cpp b/stingraykit/io/PagedBuffer.cpp
index 7fb1a68..29f3d4d 100644
--- a/stingraykit/io/PagedBuffer.cpp
+++ b/stingraykit/io/PagedBuffer.cpp
@@ -74,8 +74,8 @@ namespace stingray
 		MutexLock l(_mutex);
 		ReadLock rl(*this);
 
-		const u64 unreadSize = _pageSize * _pages.size() - _currentOffset - _tailSize;
-		if (unreadSize < _chunkSize)
+		// a page may offer data that is being pushed right now, so current offset may be ahead of the pushed data
+		if (_pageSize * _pages.size() < _currentOffset + _tailSize + _chunkSize)
 		{
 			_dataPushed.Wait(_mutex, token);
 			return;
@@ -90,7 +90,7 @@ namespace stingray
 
 		Log(LogLevel::Trace) << "Read: current offset: " << _currentOffset << " --> page: " << pageIndex << "/" << _pages.size() << ", offset: " << offset;
 
-		const u64 currentOffset = _currentOffset;
+		const u64 position = _droppedSize + _currentOffset;
 		size_t processed = 0;
 
 		{
@@ -109,7 +109,7 @@ namespace stingray
 			processed -= remainder;
 		}
 
-		if (_currentOffset == currentOffset)
+		if (_droppedSize + _currentOffset == position)
 			_currentOffset += processed;
 	}
 
@@ -203,12 +203,14 @@ namespace stingray
 		auto newBeginIt = _pages.begin();
 		u64 newStartOffset = _startOffset + size;
 		u64 newCurrentOffset = std::max(newStartOffset, _currentOffset);
+		u64 newDroppedSize = _droppedSize;
 
 		while (newStartOffset >= _pageSize)
 		{
 			++newBeginIt;
 			newStartOffset -= _pageSize;
 			newCurrentOffset -= _pageSize;
+			newDroppedSize += _pageSize;
 		}
 
 		{
@@ -223,6 +225,7 @@ namespace stingray
 		_pages.erase(_pages.begin(), newBeginIt);
 		_startOffset = newStartOffset;
 		_currentOffset = newCurrentOffset;
+		_droppedSize = newDroppedSize;
 	}
 
 
@@ -248,6 +251,7 @@ namespace stingray
 			_chunkSize(chunkSize),
 			_startOffset(0),
 			_currentOffset(0),
+			_droppedSize(0),
 			_tailSize(0),
 			_activeRead(false),
 			_activeWrite(false)
diff --git a/stingraykit/io/PagedBuffer.h b/stingraykit/io/PagedBuffer.h
index 9731e56..341de02 100644
--- a/stingraykit/io/PagedBuffer.h
+++ b/stingraykit/io/PagedBuffer.h
@@ -45,6 +45,7 @@ namespace stingray
 
 		u64							_startOffset;
 		u64							_currentOffset;
+		u64							_droppedSize;
 		u64							_tailSize;
 
 		Mutex						_mutex;
-- 
2.43.0


From 7d84b7e2d25bca4f4700962ae3d5e2a5751de13c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:54 +0000
Subject: [PATCH 12/99] fix: ChunkedMemoryByteStream must write across chunks

---
 stingraykit/io/ChunkedMemoryByteStream.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/stingraykit/io/ChunkedMemoryByteStream.h b/stingraykit/io/ChunkedMemoryByteStream.h
index 5956060..d843878 100644
--- a/stingraykit/io/ChunkedMemoryByteStream.h
+++ b/stingraykit/io/ChunkedMemoryByteStream.h
@@ -63,6 +63,7 @@ namespace stingray
 			size_t passed = 0;
 			for (size_t curcount = 0; passed < data.size(); passed += curcount)
 			{
+				NormalizePosition();
 				if (_chunk == _container->end())
 				{
 					STINGRAYKIT_CHECK(_chunkOffset == 0, LogicException("_chunkOffset must be 0"));
@@ -126,7 +127,7 @@ namespace stingray
 
 		void NormalizePosition()
 		{
-			if (_chunk != _container->end() && _chunkOffset == _chunk->size())
+			while (_chunk != _container->end() && _chunkOffset == _chunk->size())
 			{
 				_chunk++;
 				_chunkOffset = 0;
-- 
2.43.0


From a618f3f227ff1521fefd7868d7cdd8e064f02b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:54 +0000
Subject: [PATCH 13/99] fix: BufferedStream must not read past its buffer nor
 lose its place when a write fails

---
 stingraykit/io/BufferedStream.h | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/stingraykit/io/BufferedStream.h b/stingraykit/io/BufferedStream.h
index 9c12500..060523c 100644
--- a/stingraykit/io/BufferedStream.h
+++ b/stingraykit/io/BufferedStream.h
@@ -44,12 +44,12 @@ namespace stingray
 			u8* dst = data.data();
 			for (size_t toCopy = 0; total < dstSize && token; _inBufferOffset += toCopy, dst += toCopy, total += toCopy)
 			{
-				if (!_bufferSize || _inBufferOffset == _bufferSize)
+				if (!_bufferSize || _inBufferOffset >= _bufferSize)
 				{
 					if (_bufferSize)
 						SeekStream(Tell());
 					_bufferSize = _stream->Read(_buffer, token);
-					if (!_bufferSize || _inBufferOffset == _bufferSize)
+					if (!_bufferSize || _inBufferOffset >= _bufferSize)
 						break;
 				}
 				toCopy = std::min(dstSize - total, _bufferSize - _inBufferOffset);
@@ -62,7 +62,14 @@ namespace stingray
 		{
 			if (_inBufferOffset != _bufferSize || _bufferSize)
 				_stream->Seek(Tell());
-			u64 total = _stream->Write(data, token);
+			u64 total = 0;
+			try
+			{ total = _stream->Write(data, token); }
+			catch (const std::exception&)
+			{
+				SeekStream(Tell());
+				throw;
+			}
 			SeekStream(Tell() + total);
 			return total;
 		}
-- 
2.43.0


From 647c2090259db4257ed5306386008ac21914afdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:37 +0000
Subject: [PATCH 14/99] fix: DataAligner must keep what a cancelled consumer
 did not take

---
 stingraykit/io/DataAligner.h | 42 ++++++++++++++++++++++++++++++------
 1 file changed, 35 insertions(+), 7 deletions(-)

diff --git a/stingraykit/io/DataAligner.h b/stingraykit/io/DataAligner.h
index 14d21dd..f79c448 100644
--- a/stingraykit/io/DataAligner.h
+++ b/stingraykit/io/DataAligner.h
@@ -20,20 +20,25 @@ namespace stingray
 		IDataSourcePtr	_source;
 		size_t			_alignment;
 		ByteArray		_buffer;
+		size_t			_consumedSize;
 		bool			_useBuffer;
 
 	public:
 		DataAligner(const IDataSourcePtr& source, size_t alignment, bool useBuffer = true)
 			:	_source(STINGRAYKIT_REQUIRE_NOT_NULL(source)),
 				_alignment(alignment),
+				_consumedSize(),
 				_useBuffer(useBuffer)
 		{ STINGRAYKIT_CHECK(_alignment != 0, ArgumentException("alignment")); }
 
 		void Read(IDataConsumer& consumer, const ICancellationToken& token) override
-		{ _source->ReadToFunction(Bind(&DataAligner::Align, this, wrap_ref(consumer), _1, _2), Bind(&IDataConsumer::EndOfData, wrap_ref(consumer), _1), token); }
+		{ _source->ReadToFunction(Bind(&DataAligner::Align, this, wrap_ref(consumer), _1, _2), Bind(&DataAligner::EndOfData, this, wrap_ref(consumer), _1), token); }
 
 		void Reset()
-		{ _buffer.clear(); }
+		{
+			_buffer.clear();
+			_consumedSize = 0;
+		}
 
 	private:
 		size_t Align(IDataConsumer& consumer, ConstByteData data, const ICancellationToken& token)
@@ -43,6 +48,14 @@ namespace stingray
 				size_t processed = ConsumeAll(consumer, ConstByteData(data, 0, AlignDown(data.size(), _alignment)), token);
 
 				const size_t remainder = data.size() - processed;
+				const size_t partSize = processed % _alignment;
+				if (_useBuffer && partSize)
+				{
+					_buffer.append(ConstByteData(data, processed - partSize, _alignment));
+					_consumedSize = partSize;
+					return processed - partSize + _alignment;
+				}
+
 				if (_useBuffer && token && remainder)
 				{
 					_buffer.append(ConstByteData(data, processed, remainder));
@@ -56,14 +69,29 @@ namespace stingray
 
 			_buffer.append(ConstByteData(data, 0, offset));
 
-			if (_buffer.size() == _alignment)
-			{
-				ConsumeAll(consumer, _buffer, token);
-				_buffer.clear();
-			}
+			Flush(consumer, token);
 
 			return offset;
 		}
+
+		void EndOfData(IDataConsumer& consumer, const ICancellationToken& token)
+		{
+			if (Flush(consumer, token))
+				consumer.EndOfData(token);
+		}
+
+		bool Flush(IDataConsumer& consumer, const ICancellationToken& token)
+		{
+			if (_buffer.size() != _alignment)
+				return true;
+
+			_consumedSize += ConsumeAll(consumer, ConstByteData(_buffer, _consumedSize), token);
+			if (_consumedSize != _alignment)
+				return false;
+
+			Reset();
+			return true;
+		}
 	};
 	STINGRAYKIT_DECLARE_PTR(DataAligner);
 
-- 
2.43.0


From e4caa7bca4bb603d162cac3238045dfafc5ee3c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:37 +0000
Subject: [PATCH 15/99] fix: packets must not be dropped when a cancelled
 consumer did not take them

---
 stingraykit/io/DataPacketer.h | 34 ++++++++++++++++++++++++++--------
 1 file changed, 26 insertions(+), 8 deletions(-)

diff --git a/stingraykit/io/DataPacketer.h b/stingraykit/io/DataPacketer.h
index 08ebf21..c01f1ba 100644
--- a/stingraykit/io/DataPacketer.h
+++ b/stingraykit/io/DataPacketer.h
@@ -18,26 +18,37 @@ namespace stingray
 	private:
 		IDataConsumerPtr	_lifeAssurance;
 		IDataConsumer&		_consumer;
+		size_t				_processed;
 
 	public:
-		explicit ConsumerDepacketer(const IDataConsumerPtr& consumer)
+		explicit ConsumerDepacketer(const IDataConsumerPtr& consumer, size_t processed = 0)
 			:	_lifeAssurance(consumer),
-				_consumer(*_lifeAssurance)
+				_consumer(*_lifeAssurance),
+				_processed(processed)
 		{ }
 
-		explicit ConsumerDepacketer(IDataConsumer& consumer)
+		explicit ConsumerDepacketer(IDataConsumer& consumer, size_t processed = 0)
 			:	_lifeAssurance(null),
-				_consumer(consumer)
+				_consumer(consumer),
+				_processed(processed)
 		{ }
 
 		bool Process(const Packet<EmptyType>& packet, const ICancellationToken& token) override
 		{
-			ConsumeAll(_consumer, packet.GetData(), token);
+			_processed += ConsumeAll(_consumer, ConstByteData(packet.GetData(), _processed), token);
+			if (_processed != packet.GetSize())
+				return false;
+
+			_processed = 0;
 			return true;
 		}
 
 		void EndOfData() override
 		{ _consumer.EndOfData(DummyCancellationToken()); }
+
+		/** @brief Size of already processed part of the packet that is to be offered again */
+		size_t GetProcessed() const
+		{ return _processed; }
 	};
 	STINGRAYKIT_DECLARE_PTR(ConsumerDepacketer);
 
@@ -114,20 +125,27 @@ namespace stingray
 	private:
 		PacketSourcePtr		_lifeAssurance;
 		PacketSource&		_source;
+		size_t				_processed;
 
 	public:
 		explicit DataDepacketer(const PacketSourcePtr& source)
 			:	_lifeAssurance(source),
-				_source(*_lifeAssurance)
+				_source(*_lifeAssurance),
+				_processed()
 		{ }
 
 		explicit DataDepacketer(PacketSource& source)
 			:	_lifeAssurance(null),
-				_source(source)
+				_source(source),
+				_processed()
 		{ }
 
 		void Read(IDataConsumer& consumer, const ICancellationToken& token) override
-		{ ConsumerDepacketer depacketer(consumer); _source.Read(depacketer, token); }
+		{
+			ConsumerDepacketer depacketer(consumer, _processed);
+			_source.Read(depacketer, token);
+			_processed = depacketer.GetProcessed();
+		}
 	};
 	STINGRAYKIT_DECLARE_PTR(DataDepacketer);
 
-- 
2.43.0


From d694bd89672cc2a33d824faadae5d64b865d55be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:37 +0000
Subject: [PATCH 16/99] fix: BufferedDataMediator must keep what a cancelled
 consumer did not take

---
 stingraykit/io/BufferedDataMediator.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/stingraykit/io/BufferedDataMediator.h b/stingraykit/io/BufferedDataMediator.h
index 9e76361..3c242ba 100644
--- a/stingraykit/io/BufferedDataMediator.h
+++ b/stingraykit/io/BufferedDataMediator.h
@@ -35,7 +35,14 @@ namespace stingray
 
 		void Read(IDataConsumer& consumer, const ICancellationToken& token) override
 		{
-			ConsumeAll(consumer, _buffer, token);
+			const size_t processed = ConsumeAll(consumer, _buffer, token);
+			if (processed != _buffer.size())
+			{
+				ByteArray rest;
+				rest.append(ConstByteData(_buffer, processed));
+				_buffer = rest;
+				return;
+			}
 			if (_eod)
 				consumer.EndOfData(token);
 
-- 
2.43.0


From c1bea505af924a9cb5776fde1da6601564118ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:37 +0000
Subject: [PATCH 17/99] fix: ByteStreamDataSource must offer again what a
 cancelled consumer did not take

---
 stingraykit/io/ByteStreamDataSource.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/stingraykit/io/ByteStreamDataSource.h b/stingraykit/io/ByteStreamDataSource.h
index 2881342..894087a 100644
--- a/stingraykit/io/ByteStreamDataSource.h
+++ b/stingraykit/io/ByteStreamDataSource.h
@@ -33,7 +33,11 @@ namespace stingray
 			const size_t read = _stream->Read(_buffer, token);
 
 			if (read != 0)
-				ConsumeAll(consumer, ConstByteData(_buffer, 0, read), token);
+			{
+				const size_t processed = ConsumeAll(consumer, ConstByteData(_buffer, 0, read), token);
+				if (processed != read)
+					_stream->Seek((s64)processed - (s64)read, SeekMode::Current);
+			}
 			else if (token)
 				consumer.EndOfData(token);
 		}
-- 
2.43.0


From b81b90e2c0fcd10e700cdd3b600800ccb9ea7537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:37 +0000
Subject: [PATCH 18/99] fix: SkippingConsumer must not claim bytes its consumer
 did not take

---
 stingraykit/io/DataUtils.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/stingraykit/io/DataUtils.h b/stingraykit/io/DataUtils.h
index 2441ea7..b6bd651 100644
--- a/stingraykit/io/DataUtils.h
+++ b/stingraykit/io/DataUtils.h
@@ -96,9 +96,9 @@ namespace stingray
 			_leftToSkip -= skipped;
 
 			if (data.size() > skipped && _processRest)
-				ConsumeAll(_consumer, ConstByteData(data, skipped), token);
+				return skipped + ConsumeAll(_consumer, ConstByteData(data, skipped), token);
 
-			return _processRest ? data.size() : skipped;
+			return skipped;
 		}
 
 		void EndOfData(const ICancellationToken& token) override
-- 
2.43.0


From 6af23be9390e3fc1a164f78eb68ed6f213b5f306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:29 +0000
Subject: [PATCH 19/99] fix: ranges of byte arrays and views must be checked
 against the view they are taken of

The limit was compared with the whole storage, without the offset of the
parent view, and the sums could overflow, so that a range could reach beyond
its parent. Clearing a part of an array cleared what lies outside of it.
---
 stingraykit/collection/ByteData.h | 37 ++++++++++++++++++++++---------
 1 file changed, 26 insertions(+), 11 deletions(-)

diff --git a/stingraykit/collection/ByteData.h b/stingraykit/collection/ByteData.h
index d9e9dce..9bbc8ec 100644
--- a/stingraykit/collection/ByteData.h
+++ b/stingraykit/collection/ByteData.h
@@ -183,29 +183,27 @@ namespace stingray
 		template < typename U, typename EnableIf<IsConvertible<U*, T*>::Value, int>::ValueT = 0 >
 		BasicByteArray(const BasicByteArray<U>& other, size_t offset)
 			: _data(other._data), _offset(other._offset + offset), _sizeLimit(other._sizeLimit == NoSizeLimit ? NoSizeLimit : other._sizeLimit - offset)
-		{ STINGRAYKIT_CHECK(_data->size() >= _offset, IndexOutOfRangeException(_offset, _data->size())); }
+		{ CheckRange(other._offset, other._sizeLimit, offset); }
 
 		template < typename U, typename EnableIf<IsConvertible<U*, T*>::Value, int>::ValueT = 0 >
 		BasicByteArray(BasicByteArray<U>&& other, size_t offset)
 			: _data(std::move(other._data)), _offset(other._offset + offset), _sizeLimit(other._sizeLimit == NoSizeLimit ? NoSizeLimit : other._sizeLimit - offset)
-		{ STINGRAYKIT_CHECK(_data->size() >= _offset, IndexOutOfRangeException(_offset, _data->size())); }
+		{ CheckRange(other._offset, other._sizeLimit, offset); }
 
 		template < typename U, typename EnableIf<IsConvertible<U*, T*>::Value, int>::ValueT = 0 >
 		BasicByteArray(const BasicByteArray<U>& other, size_t offset, size_t sizeLimit)
 			: _data(other._data), _offset(other._offset + offset), _sizeLimit(sizeLimit)
 		{
-			STINGRAYKIT_CHECK(_data->size() >= _offset, IndexOutOfRangeException(_offset, _data->size()));
-			STINGRAYKIT_CHECK(_sizeLimit == NoSizeLimit || _sizeLimit + offset <= _data->size(), IndexOutOfRangeException(_sizeLimit + offset, offset, _data->size()));
-			STINGRAYKIT_CHECK(_sizeLimit + offset <= other._sizeLimit, IndexOutOfRangeException(_sizeLimit + offset, offset, other._sizeLimit));
+			const size_t available = CheckRange(other._offset, other._sizeLimit, offset);
+			STINGRAYKIT_CHECK(_sizeLimit <= available || (_sizeLimit == NoSizeLimit && other._sizeLimit == NoSizeLimit), IndexOutOfRangeException(_sizeLimit, offset, available));
 		}
 
 		template < typename U, typename EnableIf<IsConvertible<U*, T*>::Value, int>::ValueT = 0 >
 		BasicByteArray(BasicByteArray<U>&& other, size_t offset, size_t sizeLimit)
 			: _data(std::move(other._data)), _offset(other._offset + offset), _sizeLimit(sizeLimit)
 		{
-			STINGRAYKIT_CHECK(_data->size() >= _offset, IndexOutOfRangeException(_offset, _data->size()));
-			STINGRAYKIT_CHECK(_sizeLimit == NoSizeLimit || _sizeLimit + offset <= _data->size(), IndexOutOfRangeException(_sizeLimit + offset, offset, _data->size()));
-			STINGRAYKIT_CHECK(_sizeLimit + offset <= other._sizeLimit, IndexOutOfRangeException(_sizeLimit + offset, offset, other._sizeLimit));
+			const size_t available = CheckRange(other._offset, other._sizeLimit, offset);
+			STINGRAYKIT_CHECK(_sizeLimit <= available || (_sizeLimit == NoSizeLimit && other._sizeLimit == NoSizeLimit), IndexOutOfRangeException(_sizeLimit, offset, available));
 		}
 
 		void RequireSize(size_t size)
@@ -256,7 +254,10 @@ namespace stingray
 		}
 
 		void clear()
-		{ _data->clear(); }
+		{
+			STINGRAYKIT_CHECK(_sizeLimit == NoSizeLimit, NotImplementedException());
+			_data->resize(std::min(_data->size(), _offset));
+		}
 
 		iterator begin()
 		{
@@ -327,6 +328,14 @@ namespace stingray
 		{ return std::lexicographical_compare(data(), data() + size(), other.data(), other.data() + other.size()); }
 
 		STINGRAYKIT_GENERATE_RELATIONAL_OPERATORS_FROM_LESS(BasicByteArray);
+
+	private:
+		size_t CheckRange(size_t parentOffset, size_t parentSizeLimit, size_t offset) const
+		{
+			const size_t parentSize = _data->size() >= parentOffset ? std::min(_data->size() - parentOffset, parentSizeLimit) : 0;
+			STINGRAYKIT_CHECK(offset <= parentSize, IndexOutOfRangeException(offset, parentSize));
+			return parentSize - offset;
+		}
 	};
 
 
@@ -392,7 +401,10 @@ namespace stingray
 		template < typename U, typename EnableIf<IsConvertible<U*, T*>::Value, int>::ValueT = 0 >
 		BasicByteData(const BasicByteArray<U>& array, size_t offset, size_t size)
 			: _data(array.data() + offset), _size(size)
-		{ DETAIL_BYTEDATA_INDEX_CHECK(offset + _size, array.size()); }
+		{
+			DETAIL_BYTEDATA_INDEX_CHECK(offset, array.size());
+			DETAIL_BYTEDATA_INDEX_CHECK(size, array.size() - offset);
+		}
 
 		template < typename U, size_t N >
 		BasicByteData(U(&arr)[N])
@@ -409,7 +421,10 @@ namespace stingray
 
 		BasicByteData(BasicByteData data, size_t offset, size_t size)
 			: _data(data._data + offset), _size(size)
-		{ DETAIL_BYTEDATA_INDEX_CHECK(offset + size, data._size); }
+		{
+			DETAIL_BYTEDATA_INDEX_CHECK(offset, data._size);
+			DETAIL_BYTEDATA_INDEX_CHECK(size, data._size - offset);
+		}
 
 		T& operator [] (size_t index) const
 		{
-- 
2.43.0


From 60dddad740bbaf10d6c2a39ee8fad450e417437d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:53 +0000
Subject: [PATCH 20/99] fix: copies of sorted and ordered collections must keep
 the comparer, assigning a collection to itself must keep its contents

---
 stingraykit/collection/flat_map.h       | 4 ++--
 stingraykit/collection/flat_set.h       | 4 ++--
 stingraykit/collection/inplace_vector.h | 6 ++++++
 stingraykit/collection/ordered_map.h    | 8 ++++----
 stingraykit/collection/ordered_set.h    | 8 ++++----
 5 files changed, 18 insertions(+), 12 deletions(-)

diff --git a/stingraykit/collection/flat_map.h b/stingraykit/collection/flat_map.h
index c6d44b6..1748db1 100644
--- a/stingraykit/collection/flat_map.h
+++ b/stingraykit/collection/flat_map.h
@@ -99,11 +99,11 @@ namespace stingray
 		{ }
 
 		flat_map(const flat_map& other, const Allocator& alloc)
-			: _container(other._container, alloc), _cmp(Compare())
+			: _container(other._container, alloc), _cmp(other._cmp)
 		{ }
 
 		flat_map(flat_map&& other, const Allocator& alloc)
-			: _container(std::move(other._container), alloc), _cmp(Compare())
+			: _container(std::move(other._container), alloc), _cmp(other._cmp)
 		{ }
 
 		flat_map(std::initializer_list<value_type> list, const Compare& comp = Compare(), const Allocator& alloc = Allocator())
diff --git a/stingraykit/collection/flat_set.h b/stingraykit/collection/flat_set.h
index fdd596d..b5f11f1 100644
--- a/stingraykit/collection/flat_set.h
+++ b/stingraykit/collection/flat_set.h
@@ -70,11 +70,11 @@ namespace stingray
 		{ }
 
 		flat_set(const flat_set& other, const Allocator& alloc)
-			: _container(other._container, alloc), _cmp(Compare())
+			: _container(other._container, alloc), _cmp(other._cmp)
 		{ }
 
 		flat_set(flat_set&& other, const Allocator& alloc)
-			: _container(std::move(other._container), alloc), _cmp(Compare())
+			: _container(std::move(other._container), alloc), _cmp(other._cmp)
 		{ }
 
 		flat_set(std::initializer_list<value_type> list, const Compare& comp = Compare(), const Allocator& alloc = Allocator())
diff --git a/stingraykit/collection/inplace_vector.h b/stingraykit/collection/inplace_vector.h
index 34d68f2..6906b42 100644
--- a/stingraykit/collection/inplace_vector.h
+++ b/stingraykit/collection/inplace_vector.h
@@ -111,6 +111,9 @@ namespace stingray
 
 		inplace_vector& operator = (const inplace_vector& other)
 		{
+			if (this == &other)
+				return *this;
+
 			clear();
 			Copy(other);
 			return *this;
@@ -118,6 +121,9 @@ namespace stingray
 
 		inplace_vector& operator = (inplace_vector&& other)
 		{
+			if (this == &other)
+				return *this;
+
 			clear();
 			Move(std::move(other));
 			return *this;
diff --git a/stingraykit/collection/ordered_map.h b/stingraykit/collection/ordered_map.h
index 6ef90f1..3a16c4f 100644
--- a/stingraykit/collection/ordered_map.h
+++ b/stingraykit/collection/ordered_map.h
@@ -180,11 +180,11 @@ namespace stingray
 		{ }
 
 		ordered_map(const ordered_map& other)
-			: ordered_map(other.begin(), other.end(), other._alloc)
+			: ordered_map(other.begin(), other.end(), other.key_comp(), other._alloc)
 		{ }
 
 		ordered_map(const ordered_map& other, const Allocator& alloc)
-			: ordered_map(other.begin(), other.end(), alloc)
+			: ordered_map(other.begin(), other.end(), other.key_comp(), alloc)
 		{ }
 
 		ordered_map(ordered_map&& other, const Allocator& alloc)
@@ -201,8 +201,8 @@ namespace stingray
 
 		ordered_map& operator = (const ordered_map& other)
 		{
-			clear();
-			insert(other.begin(), other.end());
+			ordered_map copy(other);
+			swap(copy);
 			return *this;
 		}
 
diff --git a/stingraykit/collection/ordered_set.h b/stingraykit/collection/ordered_set.h
index 3b21970..b22742f 100644
--- a/stingraykit/collection/ordered_set.h
+++ b/stingraykit/collection/ordered_set.h
@@ -156,11 +156,11 @@ namespace stingray
 		{ }
 
 		ordered_set(const ordered_set& other)
-			: ordered_set(other.begin(), other.end(), other._alloc)
+			: ordered_set(other.begin(), other.end(), other.key_comp(), other._alloc)
 		{ }
 
 		ordered_set(const ordered_set& other, const Allocator& alloc)
-			: ordered_set(other.begin(), other.end(), alloc)
+			: ordered_set(other.begin(), other.end(), other.key_comp(), alloc)
 		{ }
 
 		ordered_set(ordered_set&& other, const Allocator& alloc)
@@ -177,8 +177,8 @@ namespace stingray
 
 		ordered_set& operator = (const ordered_set& other)
 		{
-			clear();
-			insert(other.begin(), other.end());
+			ordered_set copy(other);
+			swap(copy);
 			return *this;
 		}
 
-- 
2.43.0


From be7ae5da4c9f5d78733ef02c48214db086591be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:53 +0000
Subject: [PATCH 21/99] fix: bimap must stay one-to-one when a pair with a
 known key or value is inserted

---
 stingraykit/collection/bimap.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/stingraykit/collection/bimap.h b/stingraykit/collection/bimap.h
index 3c90550..34392d6 100644
--- a/stingraykit/collection/bimap.h
+++ b/stingraykit/collection/bimap.h
@@ -45,6 +45,8 @@ public: \
 \
 	void T##_insert(const T##_key_type &key, const T##_mapped_type &value) \
 	{ \
+		if (_##T.find(key) != _##T.end() || _##O.find(value) != _##O.end()) \
+			return; \
 		_##T.insert(T##_value_type(key, value)); \
 		_##O.insert(O##_value_type(value, key)); \
 	} \
-- 
2.43.0


From 5f05367ee18860e4db70c4a947c7979df4f1f7ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:58 +0000
Subject: [PATCH 22/99] fix: ReverseFind of multi-collections must find the
 last element and not look before the first

---
 stingraykit/collection/MultiMapDictionary.h | 2 +-
 stingraykit/collection/SortedMultiSet.h     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/stingraykit/collection/MultiMapDictionary.h b/stingraykit/collection/MultiMapDictionary.h
index 8040b06..36553d3 100644
--- a/stingraykit/collection/MultiMapDictionary.h
+++ b/stingraykit/collection/MultiMapDictionary.h
@@ -122,7 +122,7 @@ namespace stingray
 			using cri = typename MapType::const_reverse_iterator;
 
 			const auto it = _map->upper_bound(key);
-			if (it == _map->end() || KeyCompareType()(cri(it)->first, key))
+			if (it == _map->begin() || KeyCompareType()(cri(it)->first, key))
 				return MakeEmptyEnumerator();
 
 			return WrapMapEnumerator(EnumeratorFromStlIterators(cri(it), _map->crend(), GetMapHolder()));
diff --git a/stingraykit/collection/SortedMultiSet.h b/stingraykit/collection/SortedMultiSet.h
index 67baf35..c70306e 100644
--- a/stingraykit/collection/SortedMultiSet.h
+++ b/stingraykit/collection/SortedMultiSet.h
@@ -112,7 +112,7 @@ namespace stingray
 			using cri = typename SetType::const_reverse_iterator;
 
 			const auto it = _items->upper_bound(value);
-			if (it == _items->end() || CompareType_()(*cri(it), value))
+			if (it == _items->begin() || CompareType_()(*cri(it), value))
 				return MakeEmptyEnumerator();
 
 			return EnumeratorFromStlIterators(cri(it), _items->crend(), GetItemsHolder());
-- 
2.43.0


From 6551d9ff55def0b89c7fb8576d8cd84fa56b4648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:41 +0000
Subject: [PATCH 23/99] fix: a failing removal must not leave a counted element
 with no references

---
 stingraykit/collection/RefCountingMap.h   | 10 ++++++++--
 stingraykit/collection/RefCountingSet.h   | 14 ++++++++++----
 stingraykit/collection/RefCountingValue.h |  6 +++---
 3 files changed, 21 insertions(+), 9 deletions(-)

diff --git a/stingraykit/collection/RefCountingMap.h b/stingraykit/collection/RefCountingMap.h
index bcc4676..2e4f337 100644
--- a/stingraykit/collection/RefCountingMap.h
+++ b/stingraykit/collection/RefCountingMap.h
@@ -127,8 +127,11 @@ namespace stingray
 			if (implIt == _impl.end())
 				return 0;
 
-			if (--implIt->second.References > 0)
+			if (implIt->second.References > 1)
+			{
+				--implIt->second.References;
 				return 1;
+			}
 
 			doRemoveFunc(implIt->first, implIt->second.Value);
 			_impl.erase(implIt);
@@ -139,8 +142,11 @@ namespace stingray
 		void erase(iterator it, const DoRemoveFunc& doRemoveFunc)
 		{
 			const typename Impl::iterator implIt = it.GetImpl();
-			if (--implIt->second.References > 0)
+			if (implIt->second.References > 1)
+			{
+				--implIt->second.References;
 				return;
+			}
 
 			doRemoveFunc(implIt->first, implIt->second.Value);
 			_impl.erase(implIt);
diff --git a/stingraykit/collection/RefCountingSet.h b/stingraykit/collection/RefCountingSet.h
index 11e37a9..55de2dd 100644
--- a/stingraykit/collection/RefCountingSet.h
+++ b/stingraykit/collection/RefCountingSet.h
@@ -70,11 +70,14 @@ namespace stingray
 			if (it == _impl.end())
 				return 0;
 
-			if (--it->second == 0)
+			if (it->second > 1)
 			{
-				doRemoveFunc(it->first);
-				_impl.erase(it);
+				--it->second;
+				return 1;
 			}
+
+			doRemoveFunc(it->first);
+			_impl.erase(it);
 			return 1;
 		}
 
@@ -82,8 +85,11 @@ namespace stingray
 		void erase(iterator it, const DoRemoveFunc& doRemoveFunc)
 		{
 			const typename Impl::iterator implIt = it.base();
-			if (--implIt->second > 0)
+			if (implIt->second > 1)
+			{
+				--implIt->second;
 				return;
+			}
 
 			doRemoveFunc(implIt->first);
 			_impl.erase(implIt);
diff --git a/stingraykit/collection/RefCountingValue.h b/stingraykit/collection/RefCountingValue.h
index ae9d349..9c427f0 100644
--- a/stingraykit/collection/RefCountingValue.h
+++ b/stingraykit/collection/RefCountingValue.h
@@ -48,12 +48,13 @@ namespace stingray
 			if (_refs == 0)
 				return false;
 
-			if (--_refs == 0)
+			if (_refs == 1)
 			{
 				doReleaseFunc(*_value);
 				_value.reset();
 			}
 
+			--_refs;
 			return true;
 		}
 
@@ -63,10 +64,9 @@ namespace stingray
 			if (_refs == 0)
 				return;
 
-			_refs = 0;
-
 			doReleaseFunc(*_value);
 			_value.reset();
+			_refs = 0;
 		}
 	};
 
-- 
2.43.0


From f9cfcf4085ce1f3d7e248625abc5c58dd8180ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:11 +0000
Subject: [PATCH 24/99] fix: applying an addition to a list transaction must
 insert the item

---
 stingraykit/collection/TransactionalList.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stingraykit/collection/TransactionalList.h b/stingraykit/collection/TransactionalList.h
index 3347cd6..8921da5 100644
--- a/stingraykit/collection/TransactionalList.h
+++ b/stingraykit/collection/TransactionalList.h
@@ -325,7 +325,7 @@ namespace stingray
 				switch (entry.Op)
 				{
 				case CollectionOp::Added:
-					Set(entry.Item.Key, entry.Item.Value);
+					Insert(entry.Item.Key, entry.Item.Value);
 					break;
 				case CollectionOp::Updated:
 					Set(entry.Item.Key, entry.Item.Value);
-- 
2.43.0


From ef907b20d33d157a6e55fc96ee1a35dd089b3eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:27 +0000
Subject: [PATCH 25/99] fix: removing from an observable multiset by predicate
 must remove exactly the matching values

RemoveWhere removed the first value equivalent to each matching one, so with
a comparer for which distinguishable values are equivalent, it removed values
the predicate did not match, and notified of the others.
---
 .../collection/SortedObservableMultiSet.h     | 26 ++++++++++++++-----
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/stingraykit/collection/SortedObservableMultiSet.h b/stingraykit/collection/SortedObservableMultiSet.h
index 004325f..902522e 100644
--- a/stingraykit/collection/SortedObservableMultiSet.h
+++ b/stingraykit/collection/SortedObservableMultiSet.h
@@ -13,6 +13,8 @@
 #include <stingraykit/collection/SortedMultiSet.h>
 #include <stingraykit/signal/signals.h>
 
+#include <vector>
+
 namespace stingray
 {
 
@@ -153,14 +155,23 @@ namespace stingray
 		size_t RemoveWhere(const function<bool (const ValueType&)>& pred) override
 		{
 			signal_locker l(_onChanged);
-			size_t ret = 0;
-			FOR_EACH(const ValueType value IN _wrapped.GetEnumerator() WHERE pred(value))
+			// Equivalent values may still be distinguishable, so remove exactly those which satisfy predicate
+			std::vector<bool> matches;
+			std::vector<ValueType> removed;
+			FOR_EACH(const ValueType value IN _wrapped.GetEnumerator())
 			{
-				_wrapped.RemoveFirst(value);
-				_onChanged(CollectionOp::Removed, value);
-				++ret;
+				matches.push_back(pred(value));
+				if (matches.back())
+					removed.push_back(value);
 			}
-			return ret;
+
+			std::vector<bool>::const_iterator match = matches.begin();
+			_wrapped.RemoveWhere(Bind(&SortedObservableMultiSet::GetNextMatch, wrap_ref(match)));
+
+			for (const ValueType& value : removed)
+				_onChanged(CollectionOp::Removed, value);
+
+			return removed.size();
 		}
 
 		void Clear() override
@@ -180,6 +191,9 @@ namespace stingray
 		{ return *_mutex; }
 
 	private:
+		static bool GetNextMatch(std::vector<bool>::const_iterator& match)
+		{ return *match++; }
+
 		void OnChangedPopulator(const function<OnChangedSignature>& slot) const
 		{
 			FOR_EACH(const ValueType value IN _wrapped.GetEnumerator())
-- 
2.43.0


From 48428fb8527b4d443c623c9fe3520e67857e6fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:02 +0000
Subject: [PATCH 26/99] fix: a reversed range must move to and from its end and
 know its position there

---
 stingraykit/collection/Range.h | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/stingraykit/collection/Range.h b/stingraykit/collection/Range.h
index f4d4edc..b9975ed 100644
--- a/stingraykit/collection/Range.h
+++ b/stingraykit/collection/Range.h
@@ -377,13 +377,22 @@ namespace stingray
 			}
 
 			size_t GetPosition() const
-			{ return static_cast<int>(_impl.GetSize()) - static_cast<int>(_impl.GetPosition()) - (_implBeforeBegin ? 0 : 1); }
+			{ return Valid() ? _impl.GetSize() - _impl.GetPosition() - 1 : _impl.GetSize(); }
 
 			size_t GetSize() const
 			{ return _impl.GetSize(); }
 
 			Self& Move(int distance)
-			{ _impl.Move(-distance); return *this; }
+			{
+				const size_t size = GetSize();
+				const size_t position = GetPosition() + distance;
+				STINGRAYKIT_CHECK(position <= size, IndexOutOfRangeException(position, size));
+
+				const size_t implPosition = position < size ? size - position - 1 : 0;
+				_impl.Move(static_cast<int>(implPosition) - static_cast<int>(_impl.GetPosition()));
+				_implBeforeBegin = size != 0 && position == size;
+				return *this;
+			}
 		};
 
 
-- 
2.43.0


From c9c40031fde162872d9be2eb85ab09da4edd6c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:58 +0000
Subject: [PATCH 27/99] fix: stepping back from the end of concatenated and
 flattened ranges must give their last element

---
 stingraykit/collection/Range.h | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/stingraykit/collection/Range.h b/stingraykit/collection/Range.h
index b9975ed..c1fc0a3 100644
--- a/stingraykit/collection/Range.h
+++ b/stingraykit/collection/Range.h
@@ -808,7 +808,12 @@ namespace stingray
 
 			Self& Prev()
 			{
-				STINGRAYKIT_CHECK(Valid(), "Range is not valid!");
+				if (!Valid())
+				{
+					Last();
+					STINGRAYKIT_CHECK(Valid(), "Range is not valid!");
+					return *this;
+				}
 
 				if (_currentSubRange != SubRangeType(*_currentSubRange).First())
 					_currentSubRange->Prev();
@@ -1142,7 +1147,13 @@ namespace stingray
 
 			Self& Prev()
 			{
-				STINGRAYKIT_CHECK(Valid(), "Range is not valid!");
+				if (!Valid())
+				{
+					Last();
+					STINGRAYKIT_CHECK(Valid(), "Range is not valid!");
+					return *this;
+				}
+
 				apply_visitor(IterateVisitor<false>(*this), *_currentRange);
 				return *this;
 			}
-- 
2.43.0


From 5667f117fcf21e6c1925ca28d3f270baffddb58a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:47 +0000
Subject: [PATCH 28/99] fix: the last position of a flattened range of empty
 parts must equal its end

---
 stingraykit/collection/Range.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/stingraykit/collection/Range.h b/stingraykit/collection/Range.h
index c1fc0a3..4833377 100644
--- a/stingraykit/collection/Range.h
+++ b/stingraykit/collection/Range.h
@@ -832,6 +832,8 @@ namespace stingray
 			{
 				_range.Last();
 				_currentSubRange = FindPrev();
+				if (!_currentSubRange)
+					First();
 
 				return *this;
 			}
-- 
2.43.0


From a98b6c0a085f8213167a489d5afba371094471a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:20 +0000
Subject: [PATCH 29/99] fix: the last fragment of an evenly split range must be
 its last full fragment

---
 stingraykit/collection/Range.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stingraykit/collection/Range.h b/stingraykit/collection/Range.h
index 4833377..1fc9560 100644
--- a/stingraykit/collection/Range.h
+++ b/stingraykit/collection/Range.h
@@ -730,7 +730,7 @@ namespace stingray
 
 			Self& Last()
 			{
-				_it = std::next(_begin, AlignDown(std::distance(_begin, _end), _maxFragmentSize));
+				_it = _begin != _end ? std::next(_begin, AlignDown(std::distance(_begin, _end) - 1, _maxFragmentSize)) : _end;
 				_value.reset();
 				return *this;
 			}
-- 
2.43.0


From 8093d550dcd0efdac379ef398945901e6f67fec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:36 +0000
Subject: [PATCH 30/99] fix: picking an element of a range must not return a
 reference into a dead temporary range

---
 stingraykit/collection/Range.h | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/stingraykit/collection/Range.h b/stingraykit/collection/Range.h
index 1fc9560..607627a 100644
--- a/stingraykit/collection/Range.h
+++ b/stingraykit/collection/Range.h
@@ -612,6 +612,9 @@ namespace stingray
 			using Self = RangeCycler<Range_>;
 			using base = RangeBase<RangeCycler<Range_>, typename Range_::ValueType, typename RangeFilterCategoryHelper<typename Range_::Category>::ValueT>;
 
+		public:
+			static const bool ReturnsTemporary = Range_::ReturnsTemporary;
+
 		private:
 			Range_ _impl;
 
@@ -763,6 +766,9 @@ namespace stingray
 
 			using SubRangeType = typename RangeFlattenerHelper<Range_>::SubRangeType;
 
+		public:
+			static const bool ReturnsTemporary = Range_::ReturnsTemporary || SubRangeType::ReturnsTemporary;
+
 		private:
 			Range_					_range;
 			optional<SubRangeType>	_currentSubRange;
@@ -1113,6 +1119,12 @@ namespace stingray
 				}
 			};
 
+			template < typename RangeType >
+			struct DoesReturnTemporary : integral_constant<bool, RangeType::ReturnsTemporary> { };
+
+		public:
+			static const bool ReturnsTemporary = TypeListAnyOf<RangeTypes, DoesReturnTemporary>::Value;
+
 		private:
 			TupleType				_ranges;
 			optional<VariantRanges>	_currentRange;
@@ -1174,6 +1186,9 @@ namespace stingray
 			using Self = RangeSingle<T>;
 			using base = Range::RangeBase<RangeSingle<T>, const T&, std::random_access_iterator_tag>;
 
+		public:
+			static const bool ReturnsTemporary = true;
+
 		private:
 			T		_value;
 			bool	_valid;
-- 
2.43.0


From 9045818153abac07d1a69eb9622ab4c2ff8cf038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:28 +0000
Subject: [PATCH 31/99] fix: bit fields wider than the written value or of 24,
 40, 48 or 56 little-endian bits must be written exactly

---
 stingraykit/BitsGetter.h | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/stingraykit/BitsGetter.h b/stingraykit/BitsGetter.h
index 4912240..c68f6e5 100644
--- a/stingraykit/BitsGetter.h
+++ b/stingraykit/BitsGetter.h
@@ -279,9 +279,11 @@ namespace stingray
 				typedef typename BitsGetterResultType<T>::ValueT	ResType;
 				typedef typename MinimalTypeSelector<SizeBits>::ValueT		MinimalT;
 
-				ShiftableT shiftable_val = static_cast<ShiftableT>(static_cast<ResType>(val));
+				typedef typename If<(sizeof(ShiftableT) >= sizeof(MinimalT)), ShiftableT, MinimalT>::ValueT		WideT; // value can be narrower than bit field
+
+				WideT shiftable_val = static_cast<ShiftableT>(static_cast<ResType>(val));
 				if (!BigEndian)
-					shiftable_val = SwappableType<MinimalT>::Swap(shiftable_val);
+					shiftable_val = SwappableType<MinimalT>::Swap(shiftable_val) >> (SizeBits % 8 == 0 ? sizeof(MinimalT) * 8 - SizeBits : 0); //24 bit values are shifted right, so 00 33 22 11 becomes 11 22 33, not 22 33 00
 
 				size_t cur_byte = OffsetBits / 8;
 				int msb = 8 - (OffsetBits % 8);
@@ -293,15 +295,15 @@ namespace stingray
 					if(shift >= 0)
 					{
 						//result |= (ShiftableT(_buf[cur_byte]) >> shift) & mask<ShiftableT>(count);
-						_buf[cur_byte] &= ~(mask<ShiftableT>(count) << shift);
-						_buf[cur_byte] |= (shiftable_val << shift) & (mask<ShiftableT>(count) << shift);
+						_buf[cur_byte] &= ~(mask<WideT>(count) << shift);
+						_buf[cur_byte] |= (shiftable_val << shift) & (mask<WideT>(count) << shift);
 						break;
 					}
 					else
 					{
 						//result |= (ShiftableT(_buf[cur_byte]) & mask<ShiftableT>(msb)) << -shift;
-						_buf[cur_byte] &= ~mask<ShiftableT>(msb);
-						_buf[cur_byte] |= (shiftable_val >> -shift) & mask<ShiftableT>(msb);
+						_buf[cur_byte] &= ~mask<WideT>(msb);
+						_buf[cur_byte] |= (shiftable_val >> -shift) & mask<WideT>(msb);
 						count -= msb;
 						++cur_byte;
 						msb = 8;
@@ -336,9 +338,11 @@ namespace stingray
 				typedef typename BitsGetterResultType<T>::ValueT	ResType;
 				typedef typename MinimalTypeSelector<SizeBits>::ValueT		MinimalT;
 
-				ShiftableT shiftable = static_cast<ShiftableT>(static_cast<ResType>(val));
+				typedef typename If<(sizeof(ShiftableT) >= sizeof(MinimalT)), ShiftableT, MinimalT>::ValueT		WideT; // value can be narrower than bit field
+
+				WideT shiftable = static_cast<ShiftableT>(static_cast<ResType>(val));
 				if (!BigEndian)
-					shiftable = SwappableType<MinimalT>::Swap(shiftable);
+					shiftable = SwappableType<MinimalT>::Swap(shiftable) >> (sizeof(MinimalT) * 8 - SizeBits); //24 bit values are shifted right, so 00 33 22 11 becomes 11 22 33, not 22 33 00
 
 				const size_t offset = OffsetBits / 8;
 				const size_t count = SizeBits / 8;
-- 
2.43.0


From bdb925200a73cfd64d3799a3429c4e9c40461942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:28 +0000
Subject: [PATCH 32/99] fix: BitStream::CanRead must not overflow

---
 stingraykit/io/BitStream.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stingraykit/io/BitStream.h b/stingraykit/io/BitStream.h
index 9994705..56250f5 100644
--- a/stingraykit/io/BitStream.h
+++ b/stingraykit/io/BitStream.h
@@ -144,7 +144,7 @@ namespace stingray
 		BasicBitStream(const BasicBitStream &bitStream, size_t bytesOffset, size_t size) : _buf(bitStream._buf, bytesOffset, size), _offset(0) { }
 
 		inline bool AtEnd() const						{ return (_offset >> 3) >= _buf.size(); }
-		inline bool CanRead(size_t more_bits)			{ return (_offset + more_bits) <= (_buf.size() << 3); }
+		inline bool CanRead(size_t more_bits)			{ return _offset <= (_buf.size() << 3) && more_bits <= GetRemainingBitsCount(); }
 		inline size_t GetRemainingBitsCount() const		{ return (_buf.size() << 3) - _offset; }
 
 		template<int Size>
-- 
2.43.0


From 6fdbe43adc8958c23f156e717f6253344de44c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:45 +0000
Subject: [PATCH 33/99] fix: UTF-16 surrogate pairs must decode to code points
 above 0xFFFF

---
 stingraykit/locale/StringCodec.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/stingraykit/locale/StringCodec.cpp b/stingraykit/locale/StringCodec.cpp
index 08a3324..ca6af56 100644
--- a/stingraykit/locale/StringCodec.cpp
+++ b/stingraykit/locale/StringCodec.cpp
@@ -302,7 +302,7 @@ namespace stingray
 			if (c2 < 0xdc || c2 > 0xdf)
 				return InvalidCharacter;
 
-			return ((c0 & 0x03) << 18) | (c1 << 10) | ((c2 & 0x03) << 8) | c3;
+			return 0x10000 + (((c0 & 0x03) << 18) | (c1 << 10) | ((c2 & 0x03) << 8) | c3);
 		}
 
 		u32 Unpack_ISO_10646_utf16le(string_view::const_iterator& it, const string_view::const_iterator& end)
@@ -326,7 +326,7 @@ namespace stingray
 			if (c3 < 0xdc || c3 > 0xdf)
 				return InvalidCharacter;
 
-			return ((c1 & 0x03) << 18) | (c0 << 10) | ((c3 & 0x03) << 8) | c2;
+			return 0x10000 + (((c1 & 0x03) << 18) | (c0 << 10) | ((c3 & 0x03) << 8) | c2);
 		}
 
 		u32 Unpack_ISO_10646_utf32be(string_view::const_iterator& it, const string_view::const_iterator& end)
-- 
2.43.0


From 15c0bdf6b73d68054873a6bed5088ac7f537790e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:45 +0000
Subject: [PATCH 34/99] fix: malformed UTF-8 must decode to invalid characters,
 not to arbitrary ones

---
 stingraykit/locale/StringCodec.cpp | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/stingraykit/locale/StringCodec.cpp b/stingraykit/locale/StringCodec.cpp
index ca6af56..bfb3681 100644
--- a/stingraykit/locale/StringCodec.cpp
+++ b/stingraykit/locale/StringCodec.cpp
@@ -253,34 +253,44 @@ namespace stingray
 
 		u32 Unpack_ISO_10646_utf8(string_view::const_iterator& it, const string_view::const_iterator& end)
 		{
-			unsigned char c0 = (unsigned char)*it++;
+			const u8 c0 = (u8)*it++;
 			if (c0 <= 0x7f)
 				return c0;
 
-			if (c0 == 0xc0 || c0 == 0xc1 || c0 >= 0xf5 || it == end)
+			if (c0 < 0xc2 || c0 >= 0xf5 || it == end)
 				return InvalidCharacter;
 
-			unsigned char c1 = (unsigned char)*it++;
-			if (c0 >= 0xc2 && c0 <= 0xdf)
+			const u8 c1 = (u8)*it;
+			if ((c1 & 0xc0) != 0x80 || (c0 == 0xe0 && c1 < 0xa0) || (c0 == 0xed && c1 > 0x9f) || (c0 == 0xf0 && c1 < 0x90) || (c0 == 0xf4 && c1 > 0x8f))
+				return InvalidCharacter;
+
+			++it;
+			if (c0 <= 0xdf)
 				return ((c0 & 0x1f) << 6) | (c1 & 0x3f);
 
 			if (it == end)
 				return InvalidCharacter;
 
-			unsigned char c2 = (unsigned char)*it++;
-			if (c0 >= 0xe0 && c0 <= 0xef)
+			const u8 c2 = (u8)*it;
+			if ((c2 & 0xc0) != 0x80)
+				return InvalidCharacter;
+
+			++it;
+			if (c0 <= 0xef)
 				return ((c0 & 0x0f) << 12) | ((c1 & 0x3f) << 6) | (c2 & 0x3f);
 
 			if (it == end)
 				return InvalidCharacter;
 
-			unsigned char c3 = (unsigned char)*it++;
-			if (c0 >= 0xf0 && c0 <= 0xf4)
-				return ((c0 & 0x07) << 18) | ((c1 & 0x3f) << 12) | ((c2 & 0x3f) << 6) | (c3 & 0x3f);
+			const u8 c3 = (u8)*it;
+			if ((c3 & 0xc0) != 0x80)
+				return InvalidCharacter;
 
-			return InvalidCharacter;
+			++it;
+			return ((c0 & 0x07) << 18) | ((c1 & 0x3f) << 12) | ((c2 & 0x3f) << 6) | (c3 & 0x3f);
 		}
 
+
 		u32 Unpack_ISO_10646_utf16be(string_view::const_iterator& it, const string_view::const_iterator& end)
 		{
 			unsigned char c0 = (unsigned char)*it++;
-- 
2.43.0


From 523c42a87fdbb212829d3a8615b4164250b4f826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:45 +0000
Subject: [PATCH 35/99] fix: overlong, surrogate and too big UTF-8 sequences
 must be reported as malformed

---
 stingraykit/string/Utf8IteratorRange.h | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/stingraykit/string/Utf8IteratorRange.h b/stingraykit/string/Utf8IteratorRange.h
index 5076645..7a386e0 100644
--- a/stingraykit/string/Utf8IteratorRange.h
+++ b/stingraykit/string/Utf8IteratorRange.h
@@ -51,7 +51,7 @@ namespace stingray
 			STINGRAYKIT_CHECK(it != _end, MalformedUtf8Exception());
 
 			const u8 c1 = (u8)*it++;
-			STINGRAYKIT_CHECK((c1 & 0xc0) == 0x80, MalformedUtf8Exception());
+			STINGRAYKIT_CHECK(IsValidSecondByte(c0, c1), MalformedUtf8Exception());
 
 			if (c0 >= 0xc2 && c0 <= 0xdf)
 				return ((u32)(c0 & 0x1f) << 6) | (c1 & 0x3f);
@@ -110,7 +110,7 @@ namespace stingray
 			STINGRAYKIT_CHECK(_it != _end, MalformedUtf8Exception());
 
 			const u8 c1 = (u8)*_it++;
-			STINGRAYKIT_CHECK((c1 & 0xc0) == 0x80, MalformedUtf8Exception());
+			STINGRAYKIT_CHECK(IsValidSecondByte(c0, c1), MalformedUtf8Exception());
 
 			if (c0 >= 0xc2 && c0 <= 0xdf)
 				return *this;
@@ -158,6 +158,8 @@ namespace stingray
 					default:		STINGRAYKIT_THROW(MalformedUtf8Exception());
 					}
 
+					STINGRAYKIT_CHECK(count == 0 || IsValidSecondByte(c0, (u8)*std::next(_it)), MalformedUtf8Exception());
+
 					return *this;
 				}
 
@@ -167,6 +169,22 @@ namespace stingray
 
 			STINGRAYKIT_THROW(MalformedUtf8Exception());
 		}
+
+	private:
+		static bool IsValidSecondByte(u8 c0, u8 c1)
+		{
+			if ((c1 & 0xc0) != 0x80)
+				return false;
+
+			switch (c0)
+			{
+			case 0xe0:		return c1 >= 0xa0; // overlong
+			case 0xed:		return c1 <= 0x9f; // surrogates
+			case 0xf0:		return c1 >= 0x90; // overlong
+			case 0xf4:		return c1 <= 0x8f; // above 0x10ffff
+			default:		return true;
+			}
+		}
 	};
 
 }
-- 
2.43.0


From f7579d4acc0a0070ad7eb121458b9281324d1603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:45 +0000
Subject: [PATCH 36/99] fix: LocaleString equality must agree with comparison
 for texts in different encodings

---
 stingraykit/locale/LocaleString.cpp | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/stingraykit/locale/LocaleString.cpp b/stingraykit/locale/LocaleString.cpp
index a6b7b92..81707e6 100644
--- a/stingraykit/locale/LocaleString.cpp
+++ b/stingraykit/locale/LocaleString.cpp
@@ -44,9 +44,6 @@ namespace stingray
 		if (TextEncoding == other.TextEncoding) //encoding matched
 			return Text == other.Text;
 
-		if (Text.size() != other.Text.size())
-			return false;
-
 		return Compare(other) == 0;
 	}
 
-- 
2.43.0


From 025c765bbb3020f3d7627456144d7a65da687a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:45 +0000
Subject: [PATCH 37/99] fix: LangCode must keep the bytes of codes outside of
 ASCII

---
 stingraykit/locale/LangCode.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stingraykit/locale/LangCode.cpp b/stingraykit/locale/LangCode.cpp
index 69e1e77..a9c5b41 100644
--- a/stingraykit/locale/LangCode.cpp
+++ b/stingraykit/locale/LangCode.cpp
@@ -36,7 +36,7 @@ namespace stingray
 			array<char, 3> r;
 			std::transform(c.begin(), c.end(), r.begin(), &DoToUpper);
 
-			return (u32)(r[0] << 16) + (r[1] << 8) + r[2];
+			return ((u32)(u8)r[0] << 16) + ((u32)(u8)r[1] << 8) + (u8)r[2];
 		}
 
 	}
-- 
2.43.0


From d98125f1433bef650c4f8cb428ae32beba1acbbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:36 +0000
Subject: [PATCH 38/99] fix: the undefined byte of CP1251 must decode to an
 invalid character, not to NUL

---
 stingraykit/locale/StringCodec.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/stingraykit/locale/StringCodec.cpp b/stingraykit/locale/StringCodec.cpp
index bfb3681..4c9ef07 100644
--- a/stingraykit/locale/StringCodec.cpp
+++ b/stingraykit/locale/StringCodec.cpp
@@ -32,6 +32,8 @@ namespace stingray
 				0x0430, 0x0431, 0x0432, 0x0433, 0x0434, 0x0435, 0x0436, 0x0437, 0x0438, 0x0439, 0x043A, 0x043B, 0x043C, 0x043D, 0x043E, 0x043F,
 				0x0440, 0x0441, 0x0442, 0x0443, 0x0444, 0x0445, 0x0446, 0x0447, 0x0448, 0x0449, 0x044A, 0x044B, 0x044C, 0x044D, 0x044E, 0x044F
 			};
+			if (c == 0x98)
+				return InvalidCharacter;
 			return c < 0x80 ? c : table_80[c - 0x80];
 		}
 
-- 
2.43.0


From 6671c762ea1e783dd24dbe089c70508020f00494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:10 +0000
Subject: [PATCH 39/99] fix: undefined bytes of ISO 8859-11 must decode to
 invalid characters

---
 stingraykit/locale/StringCodec.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stingraykit/locale/StringCodec.cpp b/stingraykit/locale/StringCodec.cpp
index 4c9ef07..721118d 100644
--- a/stingraykit/locale/StringCodec.cpp
+++ b/stingraykit/locale/StringCodec.cpp
@@ -192,7 +192,7 @@ namespace stingray
 			u8 c = (u8)*it++;
 			if (c <= 0xa0)
 				return c;
-			if (c == 0xdb || c == 0xdc || c == 0xde)
+			if ((c >= 0xdb && c <= 0xde) || c >= 0xfc)
 				return InvalidCharacter;
 			return 0x0d60 + c;
 		}
-- 
2.43.0


From 20890b3709f5112b9dab8df1aeb349d404f15631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:07 +0000
Subject: [PATCH 40/99] fix: FromString must not parse a sign without digits as
 zero

---
 stingraykit/string/ToString.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/stingraykit/string/ToString.h b/stingraykit/string/ToString.h
index 9f63300..55e125a 100644
--- a/stingraykit/string/ToString.h
+++ b/stingraykit/string/ToString.h
@@ -98,6 +98,8 @@ namespace stingray
 				if (negative || str[0] == '+')
 					++index;
 
+				STINGRAYKIT_CHECK(index < str.size(), FormatException(ToString(str)));
+
 				for (size_t index2 = index; index2 < str.size(); ++index2)
 				{
 					const char ch = str[index2];
-- 
2.43.0


From 69253aae6f7a94b0df0575de96e75f9314f9bf34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:07 +0000
Subject: [PATCH 41/99] fix: a zero enum value without a name must convert to
 text that can be parsed back

---
 stingraykit/EnumToString.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stingraykit/EnumToString.cpp b/stingraykit/EnumToString.cpp
index ac42e8f..78b2b87 100644
--- a/stingraykit/EnumToString.cpp
+++ b/stingraykit/EnumToString.cpp
@@ -60,7 +60,7 @@ namespace stingray
 					break;
 			}
 
-			if (flagged_val != val)
+			if (flagged_val != val || result.empty())
 			{
 				string_ostream s;
 				s << (unsigned)val;
-- 
2.43.0


From 280601514f837d75778da107a64f4bf3ba9bc8ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:26 +0000
Subject: [PATCH 42/99] fix: enum values that are not separated by '|' must not
 be parsed partially

---
 stingraykit/EnumToString.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/stingraykit/EnumToString.cpp b/stingraykit/EnumToString.cpp
index 78b2b87..ef53f8d 100644
--- a/stingraykit/EnumToString.cpp
+++ b/stingraykit/EnumToString.cpp
@@ -124,6 +124,9 @@ namespace stingray
 
 				if (s_it == str.end())
 					break;
+
+				if (*s_it != '|')
+					STINGRAYKIT_THROW("Cannot parse enum class value: '" + str + "'!");
 			}
 
 			if (!has_nonwhitespace_chars)
-- 
2.43.0


From b2c261a3a7cc2cce34b2a90a166765d12d500ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:26 +0000
Subject: [PATCH 43/99] fix: FloatString must keep the value of a floating
 point number

---
 stingraykit/serialization/FloatString.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/stingraykit/serialization/FloatString.cpp b/stingraykit/serialization/FloatString.cpp
index f34b8f8..7c09933 100644
--- a/stingraykit/serialization/FloatString.cpp
+++ b/stingraykit/serialization/FloatString.cpp
@@ -17,8 +17,15 @@ namespace stingray
 	FloatString::FloatString(double value)
 	{
 		char buf[32];
-		int r = snprintf(buf, sizeof(buf), "%lg", value);
-		STINGRAYKIT_CHECK(r > 0, "cannot serialize double value");
+		for (int precision = 6; precision <= 17; ++precision) // the shortest text that gives the same value back
+		{
+			int r = snprintf(buf, sizeof(buf), "%.*lg", precision, value);
+			STINGRAYKIT_CHECK(r > 0, "cannot serialize double value");
+
+			double parsed;
+			if (sscanf(buf, "%lg", &parsed) == 1 && parsed == value)
+				break;
+		}
 
 		_str = buf;
 	}
-- 
2.43.0


From fb074c701ff887cfc694b37ba0dc16f2026b634f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:26 +0000
Subject: [PATCH 44/99] fix: FloatString must not parse numbers followed by
 garbage

---
 stingraykit/serialization/FloatString.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/stingraykit/serialization/FloatString.cpp b/stingraykit/serialization/FloatString.cpp
index 7c09933..215c46f 100644
--- a/stingraykit/serialization/FloatString.cpp
+++ b/stingraykit/serialization/FloatString.cpp
@@ -34,7 +34,8 @@ namespace stingray
 	double FloatString::ToDouble() const
 	{
 		double value;
-		STINGRAYKIT_CHECK(sscanf(_str.c_str(), "%lg", &value) == 1, SystemException("cannot parse double value " + _str));
+		char tail;
+		STINGRAYKIT_CHECK(sscanf(_str.c_str(), "%lg %c", &value, &tail) == 1, SystemException("cannot parse double value " + _str));
 		return value;
 	}
 
-- 
2.43.0


From 395d5a996030cc61a3b1af23a569a618eb12fae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:26 +0000
Subject: [PATCH 45/99] fix: ToHumanReadableSize must convert sizes close to
 the maximum

---
 stingraykit/string/HumanReadableSize.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stingraykit/string/HumanReadableSize.cpp b/stingraykit/string/HumanReadableSize.cpp
index 6a72658..67d6313 100644
--- a/stingraykit/string/HumanReadableSize.cpp
+++ b/stingraykit/string/HumanReadableSize.cpp
@@ -39,7 +39,7 @@ namespace stingray
 			u64 rounded = roundedInUnits * measUnit;
 			u64 delta = size * allowedErrorFactor;
 
-			if (rounded >= size - delta && rounded <= size + delta)
+			if ((rounded > size ? rounded - size : size - rounded) <= delta)
 			{
 				const std::string sizeString = ToString(roundedInUnits) + whitespace;
 				return i > 0 ? sizeString + Suffixes[i - 1] : sizeString;
-- 
2.43.0


From 2b31f8b2f0b443578636873f8716990c8a33e84b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:26 +0000
Subject: [PATCH 46/99] fix: FromHumanReadableSize must refuse sizes that do
 not fit

---
 stingraykit/string/HumanReadableSize.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/stingraykit/string/HumanReadableSize.cpp b/stingraykit/string/HumanReadableSize.cpp
index 67d6313..9582b3d 100644
--- a/stingraykit/string/HumanReadableSize.cpp
+++ b/stingraykit/string/HumanReadableSize.cpp
@@ -65,7 +65,11 @@ namespace stingray
 
 			for (size_t i = 0; i < Suffixes.size(); ++i)
 				if (suffix == Suffixes[i])
-					return num * ((u64)1 << (10 * (i + 1)));
+				{
+					const u64 measUnit = (u64)1 << (10 * (i + 1));
+					STINGRAYKIT_CHECK(num <= std::numeric_limits<u64>::max() / measUnit, FormatException(str.copy()));
+					return num * measUnit;
+				}
 		}
 
 		STINGRAYKIT_THROW(FormatException(str.copy()));
-- 
2.43.0


From a9f408d96f3e914342fac672dcd6b074004d6e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:26 +0000
Subject: [PATCH 47/99] fix: string_view reverse set searches must not read
 outside the view

---
 stingraykit/string/string_view.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/stingraykit/string/string_view.h b/stingraykit/string/string_view.h
index 3f1d2e1..8218c58 100644
--- a/stingraykit/string/string_view.h
+++ b/stingraykit/string/string_view.h
@@ -184,8 +184,10 @@ namespace stingray
 			if (v.empty())
 				return npos;
 
-			if (pos == npos)
-				pos = size() - 1;
+			if (empty())
+				return npos;
+
+			pos = std::min(pos, size() - 1);
 
 			for (size_type i = 0; i <= pos; ++i)
 				for (const_iterator it = v.begin(); it != v.end(); ++it)
@@ -231,8 +233,10 @@ namespace stingray
 			if (v.empty())
 				return npos;
 
-			if (pos == npos)
-				pos = size() - 1;
+			if (empty())
+				return npos;
+
+			pos = std::min(pos, size() - 1);
 
 			for (size_type i = 0; i <= pos; ++i)
 			{
-- 
2.43.0


From 746d7462cf8b03e4e2f3fb7219e3b8a8393d7b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:26 +0000
Subject: [PATCH 48/99] fix: string_view complement searches with an empty set
 must match any character

---
 stingraykit/string/string_view.h | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/stingraykit/string/string_view.h b/stingraykit/string/string_view.h
index 8218c58..7b291e0 100644
--- a/stingraykit/string/string_view.h
+++ b/stingraykit/string/string_view.h
@@ -203,9 +203,6 @@ namespace stingray
 
 		size_type find_first_not_of(basic_string_view v, size_type pos = 0) const
 		{
-			if (v.empty())
-				return 0;
-
 			for (; pos < size(); ++pos)
 			{
 				bool contains = false;
@@ -230,9 +227,6 @@ namespace stingray
 
 		size_type find_last_not_of(basic_string_view v, size_type pos = npos) const
 		{
-			if (v.empty())
-				return npos;
-
 			if (empty())
 				return npos;
 
-- 
2.43.0


From ceb2b8a6c1ff996236330c7a40d6e0841eada861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:26 +0000
Subject: [PATCH 49/99] fix: string_view::compare must not truncate the size
 difference

---
 stingraykit/string/string_view.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stingraykit/string/string_view.h b/stingraykit/string/string_view.h
index 7b291e0..5626977 100644
--- a/stingraykit/string/string_view.h
+++ b/stingraykit/string/string_view.h
@@ -102,7 +102,7 @@ namespace stingray
 		int compare(basic_string_view v) const
 		{
 			const int result = Traits::compare(data(), v.data(), std::min(size(), v.size()));
-			return result == 0 ? size() - v.size() : result;
+			return result != 0 ? result : size() < v.size() ? -1 : size() > v.size() ? 1 : 0;
 		}
 
 		int compare(size_type pos1, size_type count1, basic_string_view v) const									{ return substr(pos1, count1).compare(v); }
-- 
2.43.0


From 2312f90deadba2d8c5cf9172f990a452c62f152e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:26 +0000
Subject: [PATCH 50/99] fix: StringRef::find must not report matches that run
 past its end

---
 stingraykit/string/StringUtils.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stingraykit/string/StringUtils.h b/stingraykit/string/StringUtils.h
index 99236fe..5c211dd 100644
--- a/stingraykit/string/StringUtils.h
+++ b/stingraykit/string/StringUtils.h
@@ -139,7 +139,7 @@ namespace stingray
 		size_type find(const std::string& str, size_type pos = 0) const
 		{
 			const size_type p = _owner->find(str, pos + _begin);
-			return p >= _end ? npos : p - _begin;
+			return p > _end || str.size() > _end - p ? npos : p - _begin;
 		}
 
 		StringRef substr(size_type pos = 0, size_type n = npos) const
-- 
2.43.0


From d308b144345625178080d134c4eeee060a90cf86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:26 +0000
Subject: [PATCH 51/99] fix: rewinding a split range must restore its first
 piece

---
 stingraykit/string/StringUtils.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/stingraykit/string/StringUtils.h b/stingraykit/string/StringUtils.h
index 5c211dd..f402f08 100644
--- a/stingraykit/string/StringUtils.h
+++ b/stingraykit/string/StringUtils.h
@@ -249,6 +249,7 @@ namespace stingray
 			Self& First()
 			{
 				_startPos = 0;
+				_next = _search(_string, _startPos);
 				_results = 0;
 				return *this;
 			}
-- 
2.43.0


From b8a7720e59dbf7bb486c2cfc07bc82561ff722a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:26 +0000
Subject: [PATCH 52/99] fix: ReplaceAll with an empty pattern must not loop
 forever

---
 stingraykit/string/StringUtils.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stingraykit/string/StringUtils.h b/stingraykit/string/StringUtils.h
index f402f08..b5a57fe 100644
--- a/stingraykit/string/StringUtils.h
+++ b/stingraykit/string/StringUtils.h
@@ -28,7 +28,7 @@ namespace stingray
 		using StringViewType = basic_string_view<CharType>;
 
 		typename std::common_type<typename StringType::size_type, typename StringViewType::size_type>::type index = str.find(from);
-		if (index == StringViewType::npos)
+		if (index == StringViewType::npos || from.empty())
 			return str.copy();
 
 		StringType result(str.copy());
-- 
2.43.0


From fc91b708c5042ae3db3ffc9ddbda053f0389b7e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:41 +0000
Subject: [PATCH 53/99] fix: StringRef::substr must stay within its end

---
 stingraykit/string/StringUtils.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/stingraykit/string/StringUtils.h b/stingraykit/string/StringUtils.h
index b5a57fe..9aacbb9 100644
--- a/stingraykit/string/StringUtils.h
+++ b/stingraykit/string/StringUtils.h
@@ -143,7 +143,10 @@ namespace stingray
 		}
 
 		StringRef substr(size_type pos = 0, size_type n = npos) const
-		{ return StringRef(*_owner, _begin + pos, n == npos ? _end : _begin + pos + n ); }
+		{
+			pos = std::min(pos, size());
+			return StringRef(*_owner, _begin + pos, _begin + pos + std::min(n, size() - pos));
+		}
 
 		char operator [] (size_type index) const
 		{ return (*_owner)[_begin + index]; }
-- 
2.43.0


From 4014bd5a2609c4043409bac263b3e847fae7cabb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:41 +0000
Subject: [PATCH 54/99] fix: StringParse must refuse numbers that end too early

---
 stingraykit/string/StringParse.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stingraykit/string/StringParse.h b/stingraykit/string/StringParse.h
index 9e3598f..f8f343e 100644
--- a/stingraykit/string/StringParse.h
+++ b/stingraykit/string/StringParse.h
@@ -60,7 +60,7 @@ namespace stingray
 			static bool Do(const std::string& str, T& value, long)
 			{
 				std::istringstream stream(str);
-				return (stream >> value).eof();
+				return !(stream >> value).fail() && stream.eof();
 			}
 
 			template < typename T, typename ConvertFunc >
-- 
2.43.0


From 87d53426f4a2e73ee5617526db599bc642cb9fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:41 +0000
Subject: [PATCH 55/99] fix: deserializing a TranslatedString must not change
 its copies

---
 stingraykit/string/TranslatedString.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/stingraykit/string/TranslatedString.cpp b/stingraykit/string/TranslatedString.cpp
index a32b29a..f5e216d 100644
--- a/stingraykit/string/TranslatedString.cpp
+++ b/stingraykit/string/TranslatedString.cpp
@@ -57,7 +57,11 @@ namespace stingray
 
 
 	void TranslatedString::Deserialize(ObjectIStream& ar)
-	{ ar.Deserialize("translations", *_dictionary); }
+	{
+		const DictionaryImplPtr dictionary = make_shared_ptr<MapDictionary<LangCode, std::string>>();
+		ar.Deserialize("translations", *dictionary);
+		_dictionary = dictionary;
+	}
 
 
 	std::string TranslatedString::ToString() const
-- 
2.43.0


From 4c4ca6f4b23f30156f0023151ec5b6c60ab0e989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:14 +0000
Subject: [PATCH 56/99] fix: StringParse must not skip text before the
 beginning of the pattern

---
 stingraykit/string/StringParse.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/stingraykit/string/StringParse.h b/stingraykit/string/StringParse.h
index f8f343e..1b3de15 100644
--- a/stingraykit/string/StringParse.h
+++ b/stingraykit/string/StringParse.h
@@ -164,6 +164,9 @@ namespace stingray
 					return false;
 				index = 0;
 			}
+			else if (substr_pos != current_string_pos)
+				return false;
+
 			current_string_pos = substr_pos + substr.length();
 		}
 
-- 
2.43.0


From 163b2a6b8d2d34e1d72e229bba2f5a4647c0668a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:56 +0000
Subject: [PATCH 57/99] fix: the last second of 1969 is a valid time

---
 stingraykit/time/posix/TimeEngine.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/stingraykit/time/posix/TimeEngine.cpp b/stingraykit/time/posix/TimeEngine.cpp
index 940e8a5..e584da6 100644
--- a/stingraykit/time/posix/TimeEngine.cpp
+++ b/stingraykit/time/posix/TimeEngine.cpp
@@ -11,6 +11,7 @@
 #include <stingraykit/thread/atomic/AtomicInt.h>
 #include <stingraykit/SystemException.h>
 
+#include <errno.h>
 #include <time.h>
 #include <sys/time.h>
 
@@ -245,10 +246,10 @@ namespace posix
 		bdt.tm_year = bdTime.Year - 1900;
 #ifdef STINGRAYKIT_32_BIT_TIME_T
 		const s64 result = timegm64(&bdt);
-		STINGRAYKIT_CHECK(result != -1, SystemException(StringBuilder() % "timegm64(" % bdTime % ")"));
 #else
+		errno = 0;
 		const time_t result = timegm(&bdt);
-		STINGRAYKIT_CHECK(result != -1, SystemException(StringBuilder() % "timegm(" % bdTime % ")"));
+		STINGRAYKIT_CHECK(result != -1 || errno == 0, SystemException(StringBuilder() % "timegm(" % bdTime % ")"));
 #endif
 		return (s64)result * 1000 + bdTime.Milliseconds;
 	}
-- 
2.43.0


From bd67c7255c52df527af0b5ebae7d4ec9e2b32a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:56 +0000
Subject: [PATCH 58/99] fix: GetMjd must round down before the epoch

---
 stingraykit/time/Time.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/stingraykit/time/Time.cpp b/stingraykit/time/Time.cpp
index 39eb941..5a77df8 100644
--- a/stingraykit/time/Time.cpp
+++ b/stingraykit/time/Time.cpp
@@ -461,7 +461,10 @@ namespace stingray
 
 
 	int Time::GetMjd() const
-	{ return DaysSinceMjd + _milliseconds / (1000 * SecondsPerDay); }
+	{
+		const s64 millisecondsPerDay = 1000 * SecondsPerDay;
+		return DaysSinceMjd + _milliseconds / millisecondsPerDay - (_milliseconds % millisecondsPerDay < 0 ? 1 : 0);
+	}
 
 
 	u32 Time::GetBcdTime(TimeKind kind) const
-- 
2.43.0


From ec1558c845af1c0732d70257b17a65b7e0e427a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:56 +0000
Subject: [PATCH 59/99] fix: ToNtpTimestamp must round down before the epoch

---
 stingraykit/time/Time.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stingraykit/time/Time.cpp b/stingraykit/time/Time.cpp
index 5a77df8..4ee3172 100644
--- a/stingraykit/time/Time.cpp
+++ b/stingraykit/time/Time.cpp
@@ -445,7 +445,7 @@ namespace stingray
 
 
 	u64 Time::ToNtpTimestamp() const
-	{ return GetMilliseconds() / 1000 + SecondsBetweenNtpAndUnixEpochs; }
+	{ return GetMilliseconds() / 1000 - (GetMilliseconds() % 1000 < 0 ? 1 : 0) + SecondsBetweenNtpAndUnixEpochs; }
 
 
 	Time Time::FromNtpTimestamp(u64 timestamp)
-- 
2.43.0


From efcf22ea0be55e670a92d5897c8e03a8810fba60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:38 +0000
Subject: [PATCH 60/99] fix: NtpTimestamp must keep the fraction of a second

---
 stingraykit/time/NtpTimestamp.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/stingraykit/time/NtpTimestamp.cpp b/stingraykit/time/NtpTimestamp.cpp
index 62bbff4..6a24682 100644
--- a/stingraykit/time/NtpTimestamp.cpp
+++ b/stingraykit/time/NtpTimestamp.cpp
@@ -13,10 +13,10 @@ namespace stingray
 	Time NtpTimestamp::ToTime() const
 	{
 		u32 integerPart = _timestamp >> 32;
-		u64 seconds = integerPart - DifferenceBetweenUnixNtpTime;
+		s64 seconds = integerPart - DifferenceBetweenUnixNtpTime;
 
-		u32 fractionPart = _timestamp - integerPart;
-		u64 milliSeconds = fractionPart / ((u64)1 << 32);
+		u32 fractionPart = (u32)_timestamp;
+		s64 milliSeconds = ((u64)fractionPart * 1000 + ((u64)1 << 31)) >> 32;
 
 		return Time(seconds * 1000 + milliSeconds);
 	};
@@ -24,8 +24,9 @@ namespace stingray
 
 	NtpTimestamp NtpTimestamp::FromTime(Time time)
 	{
-		u32 integerPart = time.GetSeconds() +  DifferenceBetweenUnixNtpTime;
-		u32 fractionPart = time.GetSeconds() * ((u64)1 << 32);
+		s64 milliSeconds = time.GetMilliseconds() + DifferenceBetweenUnixNtpTime * 1000;
+		u32 integerPart = milliSeconds / 1000;
+		u32 fractionPart = ((u64)(milliSeconds % 1000) << 32) / 1000;
 
 		u64 timestamp = ((u64)integerPart << 32) | fractionPart;
 
-- 
2.43.0


From 1f5ef1035c02ea9287bc5afa439492a11b7c3308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:30 +0000
Subject: [PATCH 61/99] fix: escaped characters of a duration format are not
 fields

---
 stingraykit/time/Time.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/stingraykit/time/Time.cpp b/stingraykit/time/Time.cpp
index 4ee3172..33e116d 100644
--- a/stingraykit/time/Time.cpp
+++ b/stingraykit/time/Time.cpp
@@ -115,7 +115,9 @@ namespace stingray
 		{
 			const char c = format[pos];
 
-			if (c == 'h')
+			if (c == '\\')
+				++pos;
+			else if (c == 'h')
 				hasHours = true;
 			else if (c == 'm')
 				hasMinutes = true;
-- 
2.43.0


From 8b986daaa9de9a6a1a3a616e29b3ee5316c6d6d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:30 +0000
Subject: [PATCH 62/99] fix: TimeZone::FromString must not truncate an offset
 out of range

---
 stingraykit/time/Time.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/stingraykit/time/Time.cpp b/stingraykit/time/Time.cpp
index 33e116d..fe0e57e 100644
--- a/stingraykit/time/Time.cpp
+++ b/stingraykit/time/Time.cpp
@@ -288,7 +288,8 @@ namespace stingray
 			minutes = strSize > baseIndex + 2 ? stingray::FromString<int>(str.substr(baseIndex + 2, 2)) : 0;
 		}
 
-		const int value = hours * MinutesPerHour + minutes;
+		const s64 value = (s64)hours * MinutesPerHour + minutes;
+		STINGRAYKIT_CHECK(value >= -14 * MinutesPerHour && value <= 14 * MinutesPerHour, FormatException(str));
 		return TimeZone(!sign || *sign == '+' ? value : -value);
 	}
 
-- 
2.43.0


From 3c0cd8d61f7e1015cd9af3b756393ccd4c602073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:30 +0000
Subject: [PATCH 63/99] fix: overlapping fields of a BrokenDownTime format must
 not be read beyond the format

---
 stingraykit/time/BrokenDownTime.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/stingraykit/time/BrokenDownTime.cpp b/stingraykit/time/BrokenDownTime.cpp
index 782438c..438f032 100644
--- a/stingraykit/time/BrokenDownTime.cpp
+++ b/stingraykit/time/BrokenDownTime.cpp
@@ -30,6 +30,9 @@ namespace stingray
 
 			void operator () (const std::string& pattern, size_t patternIndex, size_t offset) const
 			{
+				if (offset < LastPosition)
+					return;
+
 				Stream << string_view(Format.data() + LastPosition, offset - LastPosition);
 
 				switch (patternIndex)
-- 
2.43.0


From 8786debf21ebaac67044de03e6ac62486f3b3559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:30 +0000
Subject: [PATCH 64/99] fix: TimeUtility::FromIso8601 must not truncate seconds

---
 stingraykit/time/Time.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/stingraykit/time/Time.cpp b/stingraykit/time/Time.cpp
index fe0e57e..61025dc 100644
--- a/stingraykit/time/Time.cpp
+++ b/stingraykit/time/Time.cpp
@@ -599,6 +599,7 @@ namespace stingray
 					StringParse(secondsStr, "%1%.%2%", seconds, fractionStr)
 							|| StringParse(secondsStr, "%1%", seconds),
 					FormatException(secondsStr));
+			STINGRAYKIT_CHECK(seconds < (u64)std::numeric_limits<s16>::max(), FormatException(secondsStr));
 
 			TimeDuration result = TimeDuration::FromSeconds(seconds);
 
-- 
2.43.0


From 59a9b893b1e5802038d7560e86c659ddc7762801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:30 +0000
Subject: [PATCH 65/99] fix: TimeDurationUtility::ToIso8601 must not truncate
 long durations

---
 stingraykit/time/Time.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/stingraykit/time/Time.cpp b/stingraykit/time/Time.cpp
index 61025dc..d3e4664 100644
--- a/stingraykit/time/Time.cpp
+++ b/stingraykit/time/Time.cpp
@@ -777,12 +777,12 @@ namespace stingray
 	{
 		STINGRAYKIT_CHECK(duration >= TimeDuration(), ArgumentException("duration", duration));
 
-		s16 Years = 0;
-		s16 Months = 0;
-		s16 Days = 0;
-		s16 Hours = 0;
-		s16 Minutes = 0;
-		s16 Seconds = 0;
+		s64 Years = 0;
+		s64 Months = 0;
+		s64 Days = 0;
+		s64 Hours = 0;
+		s64 Minutes = 0;
+		s64 Seconds = 0;
 
 		if (!base)
 		{
-- 
2.43.0


From 9c7ba1a707f6c4d0690832b7dea5a289c641973d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:30 +0000
Subject: [PATCH 66/99] fix: TimeDurationUtility::FromIso8601 must not truncate
 long durations

---
 stingraykit/time/Time.cpp | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/stingraykit/time/Time.cpp b/stingraykit/time/Time.cpp
index d3e4664..e39bcec 100644
--- a/stingraykit/time/Time.cpp
+++ b/stingraykit/time/Time.cpp
@@ -644,11 +644,11 @@ namespace stingray
 		{
 			s16					Years;
 			s16					Months;
-			s16					Weeks;
-			s16					Days;
-			s16					Hours;
-			s16					Minutes;
-			s16					Seconds;
+			int					Weeks;
+			int					Days;
+			int					Hours;
+			int					Minutes;
+			int					Seconds;
 
 			ParseResult()
 				: Years(0), Months(0), Weeks(0), Days(0), Hours(0), Minutes(0), Seconds(0)
@@ -656,22 +656,30 @@ namespace stingray
 
 			TimeDuration ToTimeDuration(Time base, TimeKind kind) const
 			{
+				const s64 days = (s64)Weeks * DaysPerWeek + Days;
+				const s64 seconds = days * SecondsPerDay + (s64)Hours * SecondsPerHour + (s64)Minutes * SecondsPerMinute + Seconds;
+				STINGRAYKIT_CHECK(seconds <= TimeDuration::Max().GetSeconds() / 2, FormatException(StringBuilder() % seconds % "s"));
+
+				const TimeDuration rest(seconds * 1000);
+
 				if (Years == 0 && Months == 0)
-					return TimeDuration::FromDays(Weeks * DaysPerWeek + Days) + TimeDuration::FromHours(Hours) + TimeDuration::FromMinutes(Minutes) + TimeDuration::FromSeconds(Seconds);
+					return rest;
 
 				const BrokenDownTime bdt = base.BreakDown(kind);
+				STINGRAYKIT_CHECK((int)bdt.Year + Years + Months / 12 < std::numeric_limits<s16>::max(), FormatException(StringBuilder() % Years % "Y" % Months % "M"));
+
 				return Time::FromBrokenDownTime(
 						BrokenDownTime(
 								bdt.Milliseconds,
-								bdt.Seconds + Seconds,
-								bdt.Minutes + Minutes,
-								bdt.Hours + Hours,
+								bdt.Seconds,
+								bdt.Minutes,
+								bdt.Hours,
 								bdt.WeekDay,
-								bdt.MonthDay + Weeks * DaysPerWeek + Days,
+								bdt.MonthDay,
 								bdt.Month + Months,
 								bdt.YearDay,
 								bdt.Year + Years),
-						kind) - base;
+						kind) - base + rest;
 			}
 		};
 
-- 
2.43.0


From 7c37003beaaf970672d5af029c5e7a4548ec0264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:49 +0000
Subject: [PATCH 67/99] fix: TimeDurationUtility::FromIso8601 must read years
 since a leap day as ToIso8601 writes them

---
 stingraykit/time/Time.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/stingraykit/time/Time.cpp b/stingraykit/time/Time.cpp
index e39bcec..9a82296 100644
--- a/stingraykit/time/Time.cpp
+++ b/stingraykit/time/Time.cpp
@@ -665,9 +665,12 @@ namespace stingray
 				if (Years == 0 && Months == 0)
 					return rest;
 
-				const BrokenDownTime bdt = base.BreakDown(kind);
+				BrokenDownTime bdt = base.BreakDown(kind);
 				STINGRAYKIT_CHECK((int)bdt.Year + Years + Months / 12 < std::numeric_limits<s16>::max(), FormatException(StringBuilder() % Years % "Y" % Months % "M"));
 
+				if (bdt.Month == 2 && bdt.MonthDay == 29 && GetMaxDaysInYear(bdt.Year + Years) != 366)
+					bdt.MonthDay = 28;
+
 				return Time::FromBrokenDownTime(
 						BrokenDownTime(
 								bdt.Milliseconds,
-- 
2.43.0


From cc800fd9693c23a5c1896deb004929c0059e63d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:41 +0000
Subject: [PATCH 68/99] fix: a BigUnsignedInteger constructed from zero must be
 zero

---
 stingraykit/BigNum.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/stingraykit/BigNum.h b/stingraykit/BigNum.h
index bba2b60..bcc0398 100644
--- a/stingraykit/BigNum.h
+++ b/stingraykit/BigNum.h
@@ -57,7 +57,9 @@ namespace stingray
 		BigUnsignedInteger(T source, typename EnableIf<sizeof(BlockType) >= sizeof(T), Dummy*>::ValueT dummy = 0)
 		{
 			STINGRAYKIT_CHECK(source >= 0, ArgumentException("source", source));
-			_units.push_back(source);
+
+			if (source != 0)
+				_units.push_back(source);
 		}
 
 		template <typename T>
-- 
2.43.0


From 16ed91d9ce0f3e619a8d97b21847150e04a869f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:41 +0000
Subject: [PATCH 69/99] fix: BigUnsignedInteger::ToPrimitive must not give
 negative numbers

---
 stingraykit/BigNum.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stingraykit/BigNum.h b/stingraykit/BigNum.h
index bcc0398..3a011e8 100644
--- a/stingraykit/BigNum.h
+++ b/stingraykit/BigNum.h
@@ -71,7 +71,7 @@ namespace stingray
 			if (_units.size() == 1)
 			{
 				T result(_units.at(0));
-				if ((BlockType)result == _units.at(0))
+				if ((BlockType)result == _units.at(0) && (result > 0) == (_units.at(0) > 0))
 					return result;
 			}
 			STINGRAYKIT_THROW(NotImplementedException());
-- 
2.43.0


From 6ff4880d27adfd390084822866a175acd7d2807c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:34 +0000
Subject: [PATCH 70/99] fix: BigUnsignedInteger must be ordered by its most
 significant units

---
 stingraykit/BigNum.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/stingraykit/BigNum.cpp b/stingraykit/BigNum.cpp
index 239689f..acfac91 100644
--- a/stingraykit/BigNum.cpp
+++ b/stingraykit/BigNum.cpp
@@ -589,9 +589,9 @@ namespace stingray
 		if (_units.size() > other._units.size())
 			return false;
 
-		for (size_t i = 0; i < _units.size(); ++i)
-			if (_units[i] < other._units[i])
-				return true;
+		for (size_t i = _units.size(); i > 0; --i)
+			if (_units[i - 1] != other._units[i - 1])
+				return _units[i - 1] < other._units[i - 1];
 
 		return false;
 	}
-- 
2.43.0


From 50cfec75c8e19c7d28620a8bf11841a558802ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:43 +0000
Subject: [PATCH 71/99] fix: Decimal must calculate exactly and report overflow

---
 stingraykit/Decimal.cpp | 75 ++++++++++++++++++++++++++++++++++-------
 1 file changed, 62 insertions(+), 13 deletions(-)

diff --git a/stingraykit/Decimal.cpp b/stingraykit/Decimal.cpp
index 65087ae..6143f53 100644
--- a/stingraykit/Decimal.cpp
+++ b/stingraykit/Decimal.cpp
@@ -9,7 +9,7 @@
 
 #include <stingraykit/string/StringUtils.h>
 
-#include <cmath>
+#include <limits>
 
 namespace stingray
 {
@@ -17,7 +17,7 @@ namespace stingray
 	namespace
 	{
 
-		const u16 BaseOfExponent = 10;
+		const s64 BaseOfExponent = 10;
 
 		string_view RemoveUnsignificantZeros(string_view source)
 		{
@@ -34,8 +34,54 @@ namespace stingray
 			return source;
 		}
 
+		bool TryScale(s64& value, unsigned exponent)
+		{
+			if (value == 0)
+				return true;
+
+			for (; exponent > 0; --exponent)
+			{
+				if (value > std::numeric_limits<s64>::max() / BaseOfExponent || value < std::numeric_limits<s64>::min() / BaseOfExponent)
+					return false;
+
+				value *= BaseOfExponent;
+			}
+
+			return true;
+		}
+
+
 		s64 PowToExponent(const Decimal& decimal, u16 exponent)
-		{ return decimal.GetMantissa() * std::pow(BaseOfExponent, exponent - decimal.GetExponent()); }
+		{
+			s64 result = decimal.GetMantissa();
+			STINGRAYKIT_CHECK(TryScale(result, exponent - decimal.GetExponent()), IntegerOverflowException());
+			return result;
+		}
+
+
+		s64 Add(s64 lhs, s64 rhs)
+		{
+			STINGRAYKIT_CHECK(
+					rhs > 0 ? lhs <= std::numeric_limits<s64>::max() - rhs : lhs >= std::numeric_limits<s64>::min() - rhs,
+					IntegerOverflowException());
+			return lhs + rhs;
+		}
+
+
+		int Compare(const Decimal& lhs, const Decimal& rhs)
+		{
+			const u16 maxExponent = std::max(lhs.GetExponent(), rhs.GetExponent());
+
+			s64 lhsMantissa = lhs.GetMantissa();
+			if (!TryScale(lhsMantissa, maxExponent - lhs.GetExponent()))
+				return lhsMantissa > 0 ? 1 : -1;
+
+			s64 rhsMantissa = rhs.GetMantissa();
+			if (!TryScale(rhsMantissa, maxExponent - rhs.GetExponent()))
+				return rhsMantissa > 0 ? -1 : 1;
+
+			return lhsMantissa < rhsMantissa ? -1 : lhsMantissa > rhsMantissa ? 1 : 0;
+		}
 
 	}
 
@@ -61,11 +107,11 @@ namespace stingray
 		const s64 fractionalPart = croppedFractionalPart.empty() ? 0 : stingray::FromString<s64>(croppedFractionalPart);
 
 		const u16 exponent = (u16)croppedFractionalPart.size();
-		const s64 integralMantissa = integralPart * std::pow(BaseOfExponent, exponent);
+		const s64 integralMantissa = PowToExponent(integralPart, exponent);
 		const s64 fractionalMantissa = integralPart >= 0 ? fractionalPart : -fractionalPart;
 		const int signFactor = !rawIntegralPart.empty() && rawIntegralPart[0] == '-' && integralPart == 0 ? -1 : 1;
 
-		_mantissa = (integralMantissa + fractionalMantissa) * signFactor;
+		_mantissa = Add(integralMantissa, fractionalMantissa) * signFactor;
 		_exponent = exponent;
 	}
 
@@ -93,22 +139,20 @@ namespace stingray
 
 	bool Decimal::operator == (const Decimal& other) const
 	{
-		const u16 maxExponent = std::max(_exponent, other._exponent);
-		return PowToExponent(*this, maxExponent) == PowToExponent(other, maxExponent);
+		return Compare(*this, other) == 0;
 	}
 
 
 	bool Decimal::operator < (const Decimal& other) const
 	{
-		const u16 maxExponent = std::max(_exponent, other._exponent);
-		return PowToExponent(*this, maxExponent) < PowToExponent(other, maxExponent);
+		return Compare(*this, other) < 0;
 	}
 
 
 	Decimal& Decimal::operator += (const Decimal& other)
 	{
 		const u16 maxExponent = std::max(_exponent, other._exponent);
-		_mantissa = PowToExponent(*this, maxExponent) + PowToExponent(other, maxExponent);
+		_mantissa = Add(PowToExponent(*this, maxExponent), PowToExponent(other, maxExponent));
 		_exponent = maxExponent;
 		return *this;
 	}
@@ -116,9 +160,14 @@ namespace stingray
 
 	Decimal& Decimal::operator *= (const Decimal& other)
 	{
-		const u16 maxExponent = std::max(_exponent, other._exponent);
-		_mantissa = PowToExponent(*this, maxExponent) * PowToExponent(other, maxExponent);
-		_exponent = maxExponent + maxExponent;
+		const unsigned exponent = _exponent + other._exponent;
+		STINGRAYKIT_CHECK(exponent <= std::numeric_limits<u16>::max(), IntegerOverflowException());
+
+		s64 mantissa = 0;
+		STINGRAYKIT_CHECK(!__builtin_mul_overflow(_mantissa, other._mantissa, &mantissa), IntegerOverflowException());
+
+		_mantissa = mantissa;
+		_exponent = exponent;
 		return *this;
 	}
 
-- 
2.43.0


From 519c49e2c3461bec01e5f0710c06ddc196f278a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:43 +0000
Subject: [PATCH 72/99] fix: Decimal::ToString must put the sign first

---
 stingraykit/Decimal.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/stingraykit/Decimal.cpp b/stingraykit/Decimal.cpp
index 6143f53..7190bec 100644
--- a/stingraykit/Decimal.cpp
+++ b/stingraykit/Decimal.cpp
@@ -118,17 +118,19 @@ namespace stingray
 
 	std::string Decimal::ToString() const
 	{
-		const std::string value = AddSignificantZeros(stingray::ToString(_mantissa), _exponent);
+		const std::string value = AddSignificantZeros(RemovePrefix(stingray::ToString(_mantissa), "-"), _exponent);
 
 		std::string integralPart = ExtractPrefix(value, value.size() - _exponent);
 
 		const std::string rawFractionalPart = RemovePrefix(value, integralPart);
 		const string_view croppedFractionalPart = RemoveUnsignificantZeros(rawFractionalPart);
 
-		if (integralPart.empty() || integralPart == "-")
+		if (integralPart.empty())
 			integralPart.append("0");
 
 		StringBuilder builder;
+		if (_mantissa < 0)
+			builder % "-";
 		builder % integralPart;
 
 		if (!croppedFractionalPart.empty())
-- 
2.43.0


From ec446ab141e65d3a8b7397e83902a18904797973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:43 +0000
Subject: [PATCH 73/99] fix: Decimal must not accept a sign after the point

---
 stingraykit/Decimal.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/stingraykit/Decimal.cpp b/stingraykit/Decimal.cpp
index 7190bec..884817f 100644
--- a/stingraykit/Decimal.cpp
+++ b/stingraykit/Decimal.cpp
@@ -100,6 +100,7 @@ namespace stingray
 		const string_view rawIntegralPart = str.substr(0, pointPos);
 		const string_view rawFractionalPart = str.substr(pointPos + 1);
 		STINGRAYKIT_CHECK(!rawIntegralPart.empty() || !rawFractionalPart.empty(), ArgumentException("str", str));
+		STINGRAYKIT_CHECK(rawFractionalPart.empty() || (rawFractionalPart[0] >= '0' && rawFractionalPart[0] <= '9'), ArgumentException("str", str));
 
 		const s64 integralPart = rawIntegralPart.empty() ? 0 : stingray::FromString<s64>(rawIntegralPart);
 
-- 
2.43.0


From b31855afeb58e81633e96e8ac4a18e203c84596f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:43 +0000
Subject: [PATCH 74/99] fix: fixed_point::sqrt must not lose high bits

---
 stingraykit/fixed_point.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/stingraykit/fixed_point.h b/stingraykit/fixed_point.h
index 9076e94..9d5b001 100644
--- a/stingraykit/fixed_point.h
+++ b/stingraykit/fixed_point.h
@@ -96,10 +96,10 @@ namespace stingray
 		{
 			fixed_point ret(0);
 			DoubleType ret_sq = -((DoubleType)value << (N * 2)) - 1;
-			for (int s = 30; s >= 0; s -= 2)
+			for (int s = sizeof(DoubleType) * 8 - 2; s >= 0; s -= 2)
 			{
 				ret._value += ret._value;
-				DoubleType b = ret_sq + ((2 * ret._value + 1) << s);
+				DoubleType b = ret_sq + ((2 * (DoubleType)ret._value + 1) << s);
 				if (b < 0)
 				{
 					ret_sq = b;
-- 
2.43.0


From d722645e46c25c61c3c60a40266120b76e7216ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:43 +0000
Subject: [PATCH 75/99] fix: fixed_point::ToString must keep zeros and sign of
 the fraction

---
 stingraykit/fixed_point.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/stingraykit/fixed_point.h b/stingraykit/fixed_point.h
index 9d5b001..0055bde 100644
--- a/stingraykit/fixed_point.h
+++ b/stingraykit/fixed_point.h
@@ -111,8 +111,9 @@ namespace stingray
 
 		std::string ToString() const
 		{
-			value_type res = (*this * 1000).to_int();
-			return StringBuilder() % (res / 1000) % "." % (res % 1000);
+			const DoubleType res = (DoubleType)_value * 1000 / ((DoubleType)1 << N);
+			const DoubleType absRes = res < 0 ? -res : res;
+			return StringBuilder() % (res < 0 ? "-" : "") % (absRes / 1000) % "." % RightJustify(stingray::ToString(absRes % 1000), 3, '0');
 		}
 
 		static fixed_point FromRawValue(value_type value)
-- 
2.43.0


From 1b06d4be7561f46fca370f71399bf7a3ebae28e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:43 +0000
Subject: [PATCH 76/99] fix: fixed_point::FromString must handle negative and
 long fractions

---
 stingraykit/fixed_point.h | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/stingraykit/fixed_point.h b/stingraykit/fixed_point.h
index 0055bde..95e9290 100644
--- a/stingraykit/fixed_point.h
+++ b/stingraykit/fixed_point.h
@@ -130,10 +130,13 @@ namespace stingray
 			case 2:
 			{
 				fixed_point integral_part = stingray::FromString<value_type>(v[0]);
-				fixed_point fractional_part = stingray::FromString<value_type>(v[1]);
-				for (size_t i = 0; i < v[1].size(); ++i)
-					fractional_part /= 10;
-				return integral_part + fractional_part;
+				fixed_point fractional_part = 0;
+				for (std::string::const_reverse_iterator it = v[1].rbegin(); it != v[1].rend(); ++it)
+				{
+					STINGRAYKIT_CHECK(*it >= '0' && *it <= '9', ArgumentException("str", str));
+					fractional_part = (fractional_part + fixed_point(*it - '0')) / 10;
+				}
+				return v[0][0] == '-' ? integral_part - fractional_part : integral_part + fractional_part;
 			}
 			default:
 				STINGRAYKIT_THROW(ArgumentException("str", str));
-- 
2.43.0


From 4140ea4192040cc35c2f2e64ebf9db03681edca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:48 +0000
Subject: [PATCH 77/99] fix: BytesOwner must be serialized as it is
 deserialized

---
 stingraykit/serialization/Serialization.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/stingraykit/serialization/Serialization.h b/stingraykit/serialization/Serialization.h
index d235437..cbe765f 100644
--- a/stingraykit/serialization/Serialization.h
+++ b/stingraykit/serialization/Serialization.h
@@ -365,6 +365,10 @@ namespace stingray
 		ObjectOStream& serialize(const std::vector<u8> & data)
 		{ return serialize(ConstByteData(data.data(), data.size())); }
 
+		template<typename T>
+		ObjectOStream& serialize(const BasicBytesOwner<T>& data)
+		{ return serialize(ConstByteData(data.data(), data.size())); }
+
 		ObjectOStream& serialize(ConstByteData data)
 		{ Write(data); return *this; }
 
-- 
2.43.0


From 5b29585e9ed4eff3e751079eef5f27aca305c744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:48 +0000
Subject: [PATCH 78/99] fix: a list of less than two elements is not a pair

---
 stingraykit/serialization/Serialization.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/stingraykit/serialization/Serialization.h b/stingraykit/serialization/Serialization.h
index cbe765f..f2a6de0 100644
--- a/stingraykit/serialization/Serialization.h
+++ b/stingraykit/serialization/Serialization.h
@@ -772,6 +772,9 @@ namespace stingray
 			typedef PairDeserializer<K, V> helper_type;
 			helper_type helper(pair, _context);
 			for_each(Bind(&helper_type::Deserialize, &helper, _collection, _1));
+			if (helper._index != 2)
+				STINGRAYKIT_THROW(std::runtime_error("pair must contain two elements"));
+
 			return *this;
 		}
 
-- 
2.43.0


From 943da7481c9471f1fff2f4e7c673364f7a49e2d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:48 +0000
Subject: [PATCH 79/99] fix: variant must not ignore an index which is out of
 range

---
 stingraykit/serialization/Serialization.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/stingraykit/serialization/Serialization.h b/stingraykit/serialization/Serialization.h
index f2a6de0..1e4d2a8 100644
--- a/stingraykit/serialization/Serialization.h
+++ b/stingraykit/serialization/Serialization.h
@@ -739,6 +739,9 @@ namespace stingray
 		{
 			size_t index = 0;
 			Deserialize("index", index);
+			if (index >= GetTypeListLength<Types_>::Value)
+				STINGRAYKIT_THROW(std::runtime_error("invalid index of variant type"));
+
 			For<GetTypeListLength<Types_>::Value, SerializationUtils::VariantObjectCreator<Types_>::template CreatorFunc>::Do(index, wrap_ref(v));
 			apply_visitor(SerializationUtils::VariantDeserializeVisitor<ObjectIStream>(*this), v);
 		}
-- 
2.43.0


From 51e5631785ac44b03b6dd3e8d8643ec7d73e7b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:48 +0000
Subject: [PATCH 80/99] fix: Deserializer of optional must not keep the
 previous value

---
 stingraykit/serialization/Serializer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stingraykit/serialization/Serializer.h b/stingraykit/serialization/Serializer.h
index 21b5ecd..24edaca 100644
--- a/stingraykit/serialization/Serializer.h
+++ b/stingraykit/serialization/Serializer.h
@@ -202,7 +202,7 @@ namespace stingray
 		optional<DeserializationHelper>		_helper;
 
 	public:
-		explicit Deserializer(optional<T>& object) : _helper(DeserializationHelper(object)) { }
+		explicit Deserializer(optional<T>& object) : _helper(DeserializationHelper(object)) { object = null; }
 
 		optional<DeserializationHelper>& operator * () { return _helper; }
 	};
-- 
2.43.0


From f628deb93dff97b54e28a1d98d8f6409057ee21b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:48 +0000
Subject: [PATCH 81/99] fix: MakeIntegerDeserializer must accept 64-bit values

---
 stingraykit/serialization/IntegerDeserializer.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/stingraykit/serialization/IntegerDeserializer.h b/stingraykit/serialization/IntegerDeserializer.h
index 3524da1..2c73846 100644
--- a/stingraykit/serialization/IntegerDeserializer.h
+++ b/stingraykit/serialization/IntegerDeserializer.h
@@ -29,6 +29,9 @@ namespace stingray
 			template < typename Container_ >
 			Integer_ operator()(Container_ contatiner) const
 			{
+				if (sizeof(Integer_) >= sizeof(Container_))
+					return static_cast<Integer_>(contatiner);
+
 				const Container_ begin = static_cast<Container_>(std::numeric_limits<Integer_>::min());
 				const Container_ end = static_cast<Container_>(std::numeric_limits<Integer_>::max()) + 1;
 				STINGRAYKIT_CHECK_RANGE(contatiner, begin, end);
-- 
2.43.0


From a690a87e65b77e7b6b60ef527710dcc9076e11f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:23 +0000
Subject: [PATCH 82/99] fix: arithmetic coder must not lose pending underflow
 bits at the end of data

---
 stingraykit/compression/ArithmeticCoder.h | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/stingraykit/compression/ArithmeticCoder.h b/stingraykit/compression/ArithmeticCoder.h
index fa192f0..50deaac 100644
--- a/stingraykit/compression/ArithmeticCoder.h
+++ b/stingraykit/compression/ArithmeticCoder.h
@@ -57,12 +57,11 @@ namespace stingray
 		template <typename BitsConsumer_>
 		void EndOfData(const BitsConsumer_& consumer)
 		{
-			while (_low != _high)
-			{
-				consumer(FirstBit(_low));
-				_low = (_low << 1) & 0x7FFFFFFF;
-				_high = (_high << 1) & 0x7FFFFFFF;
-			}
+			const bool bit = SecondBit(_low);
+			consumer(bit);
+			for (u32 i = 0; i < _underflowBits + 1; ++i)
+				consumer(!bit);
+			_underflowBits = 0;
 		}
 
 	private:
-- 
2.43.0


From 5e2c0be011ee637f3a1e267f3d8ef7cdcb66beae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:23 +0000
Subject: [PATCH 83/99] fix: cumulative probability in PpmModel must not be
 limited by probability type

---
 stingraykit/compression/ppm/PpmModel.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stingraykit/compression/ppm/PpmModel.h b/stingraykit/compression/ppm/PpmModel.h
index 96fcada..1777867 100644
--- a/stingraykit/compression/ppm/PpmModel.h
+++ b/stingraykit/compression/ppm/PpmModel.h
@@ -476,7 +476,7 @@ namespace stingray
 					f(scale - exit, scale, scale);
 					return false;
 				}
-				SymbolCount low = Sum(Transform(ToRange(first, it), Bind(&SymbolProbability::GetProbability, _1)));
+				SymbolCount low = Sum(Transform(Transform(ToRange(first, it), Bind(&SymbolProbability::GetProbability, _1)), ImplicitCaster<SymbolCount>()));
 				f(low, low + it->GetProbability(), scale);
 				return true;
 			}
-- 
2.43.0


From f35c36799a209229bbacc72e5c6cfcb96f853c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:23 +0000
Subject: [PATCH 84/99] fix: output buffer of PpmCompressor must not be
 overwritten when it wraps or when many bits come at once

---
 stingraykit/compression/ppm/PpmCompressor.h | 47 ++++++++-------------
 1 file changed, 18 insertions(+), 29 deletions(-)

diff --git a/stingraykit/compression/ppm/PpmCompressor.h b/stingraykit/compression/ppm/PpmCompressor.h
index 3116f3c..0508853 100644
--- a/stingraykit/compression/ppm/PpmCompressor.h
+++ b/stingraykit/compression/ppm/PpmCompressor.h
@@ -13,8 +13,9 @@
 #include <stingraykit/compression/ICompressionEngine.h>
 #include <stingraykit/compression/ppm/PpmModel.h>
 
+#include <algorithm>
 #include <deque>
-#include <string.h>
+#include <vector>
 
 namespace stingray
 {
@@ -25,33 +26,27 @@ namespace stingray
 		static const size_t BufferSizeBits = BufferSizeBytes * 8;
 
 	private:
-		array<u8, BufferSizeBytes>  _buffer;
-		size_t                 _writeOffset;
-		size_t                 _readOffset;
-		bool                   _dataIsContiguous;
+		std::vector<u8> _buffer;
+		size_t          _dataSize;
 
 	public:
-		BitsToBytesBuffer() :
-			_writeOffset(0), _readOffset(0),
-			_dataIsContiguous(true)
-		{ std::fill(_buffer.begin(), _buffer.end(), 0); }
+		BitsToBytesBuffer() : _dataSize(0)
+		{ _buffer.reserve(BufferSizeBytes); }
 
 		size_t GetDataSizeBits() const
-		{ return _dataIsContiguous ? (_writeOffset - _readOffset) : (BufferSizeBits - _readOffset + _writeOffset); }
+		{ return _dataSize; }
 
 		size_t GetFreeSizeBits() const
-		{ return BufferSizeBits - GetDataSizeBits(); }
+		{ return BufferSizeBits - std::min(BufferSizeBits + 0, _dataSize); }
 
+		// May exceed the buffer size: number of bits postponed by the coder is not limited
 		void AddBit(bool bit)
 		{
-			_buffer[BitsToBytes(_writeOffset)] |= (bit << (7 - (_writeOffset & 7)));
-			++_writeOffset;
-
-			if (_writeOffset == BufferSizeBits)
-			{
-				_writeOffset = 0;
-				_dataIsContiguous = !_dataIsContiguous;
-			}
+			if (_dataSize == BytesToBits(_buffer.size()))
+				_buffer.push_back(0);
+
+			_buffer[BitsToBytes(_dataSize)] |= (bit << (7 - (_dataSize & 7)));
+			++_dataSize;
 		}
 
 		template <typename DataConsumer_>
@@ -61,7 +56,7 @@ namespace stingray
 		template <typename DataConsumer_>
 		bool EndOfData(const DataConsumer_& consumer)
 		{
-			_writeOffset = BytesToBits(BitsToBytes(_writeOffset + 7));
+			_dataSize = BytesToBits(_buffer.size());
 			while (GetDataSizeBits() != 0)
 				if (!DoConsume(consumer))
 					return false;
@@ -75,17 +70,11 @@ namespace stingray
 		template <typename DataConsumer_>
 		bool DoConsume(const DataConsumer_& consumer)
 		{
-			size_t size = _dataIsContiguous ? (BitsToBytes(_writeOffset) - BitsToBytes(_readOffset)) : (BufferSizeBytes - BitsToBytes(_readOffset));
-			size_t consumedSize = consumer(ConstByteData(_buffer, BitsToBytes(_readOffset), size));
+			size_t consumedSize = consumer(ConstByteData(_buffer, 0, BitsToBytes(_dataSize)));
 
-			::memset(_buffer.data() + BitsToBytes(_readOffset), 0, consumedSize);
+			_buffer.erase(_buffer.begin(), _buffer.begin() + consumedSize);
+			_dataSize -= BytesToBits(consumedSize);
 
-			_readOffset += BytesToBits(consumedSize);
-			if (_readOffset == BufferSizeBits)
-			{
-				_readOffset = 0;
-				_dataIsContiguous = !_dataIsContiguous;
-			}
 			return consumedSize != 0;
 		}
 	};
-- 
2.43.0


From 57253bd8d9efac5c0041710afdafa923a44cb9c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:13 +0000
Subject: [PATCH 85/99] fix: PpmCompressor must not encode the end of data
 again when the consumer did not accept it at once

---
 stingraykit/compression/ppm/PpmCompressor.h | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/stingraykit/compression/ppm/PpmCompressor.h b/stingraykit/compression/ppm/PpmCompressor.h
index 0508853..3a605c8 100644
--- a/stingraykit/compression/ppm/PpmCompressor.h
+++ b/stingraykit/compression/ppm/PpmCompressor.h
@@ -96,9 +96,10 @@ namespace stingray
 		std::deque<typename Impl::Symbol> _context;
 		BitsToBytesBuffer<BufferSize>     _bitBuffer;
 		ArithmeticCoder                   _coder;
+		bool                              _endOfData;
 
 	public:
-		PpmCompressor(const shared_ptr<const Model>& model, const IDataSourcePtr& source) : _model(model), _source(source)
+		PpmCompressor(const shared_ptr<const Model>& model, const IDataSourcePtr& source) : _model(model), _source(source), _endOfData(false)
 		{ }
 
 		virtual void Read(IDataConsumer& consumer, const ICancellationToken& token)
@@ -119,9 +120,13 @@ namespace stingray
 			if (!ConsumeData(consumer, token))
 				return;
 
-			_model->Predict(_context, null, Bind(&PpmCompressor::DoEncode, this, _1, _2, _3));
+			if (!_endOfData)
+			{
+				_model->Predict(_context, null, Bind(&PpmCompressor::DoEncode, this, _1, _2, _3));
+				_coder.EndOfData(Bind(&PpmCompressor::AddBit, this, _1));
+				_endOfData = true;
+			}
 
-			_coder.EndOfData(Bind(&PpmCompressor::AddBit, this, _1));
 			if (!_bitBuffer.EndOfData(Bind(&IDataConsumer::Process, &consumer, _1, wrap_const_ref(token))))
 				return;
 			consumer.EndOfData(token);
-- 
2.43.0


From 299944d5612e6763758f5a6fc7725a6cd8de69df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:26 +0000
Subject: [PATCH 86/99] fix: variant must become empty whatever the constructor
 of its item throws

---
 stingraykit/variant.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/stingraykit/variant.h b/stingraykit/variant.h
index 581a6b3..32fe78b 100644
--- a/stingraykit/variant.h
+++ b/stingraykit/variant.h
@@ -512,7 +512,7 @@ namespace stingray
 				this->_storage.template Ctor<T>(std::forward<Us>(args)...);
 				this->_type = IndexOfTypeListItem<TypeList, T>::Value;
 			}
-			catch (const std::exception& ex)
+			catch (...)
 			{ AssignDefault(); throw; }
 		}
 
@@ -525,7 +525,7 @@ namespace stingray
 				this->_storage.template Ctor<typename Decay<T>::ValueT>(std::forward<T>(val));
 				this->_type = IndexOfTypeListItem<TypeList, typename Decay<T>::ValueT>::Value;
 			}
-			catch (const std::exception& ex)
+			catch (...)
 			{ AssignDefault(); throw; }
 		}
 
-- 
2.43.0


From 49d346e1a7a8ffcfbf192855a48549cc43365c57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:26 +0000
Subject: [PATCH 87/99] fix: variant must survive assignment of itself and of
 its own item

---
 stingraykit/variant.h | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/stingraykit/variant.h b/stingraykit/variant.h
index 32fe78b..661cce2 100644
--- a/stingraykit/variant.h
+++ b/stingraykit/variant.h
@@ -309,12 +309,18 @@ namespace stingray
 
 		void assign(const variant& other)
 		{
+			if (this == &other)
+				return;
+
 			base::Destruct();
 			Assign(other);
 		}
 
 		void assign(variant&& other)
 		{
+			if (this == &other)
+				return;
+
 			base::Destruct();
 			Assign(std::move(other));
 		}
@@ -322,8 +328,9 @@ namespace stingray
 		template < typename T >
 		void assign(T&& val, typename EnableIf<TypeListContains<TypeList, typename Decay<T>::ValueT>::Value, Dummy>::ValueT* = 0)
 		{
+			variant other(std::forward<T>(val)); // val may belong to the item which is going to be destroyed
 			base::Destruct();
-			AssignVal(std::forward<T>(val));
+			Assign(std::move(other));
 		}
 
 		variant& operator = (const variant& other)
@@ -445,12 +452,18 @@ namespace stingray
 
 		void assign(const variant& other)
 		{
+			if (this == &other)
+				return;
+
 			base::Destruct();
 			Assign(other);
 		}
 
 		void assign(variant&& other)
 		{
+			if (this == &other)
+				return;
+
 			base::Destruct();
 			Assign(std::move(other));
 		}
@@ -458,8 +471,9 @@ namespace stingray
 		template < typename T >
 		void assign(T&& val, typename EnableIf<TypeListContains<TypeList, typename Decay<T>::ValueT>::Value, Dummy>::ValueT* = 0)
 		{
+			variant other(std::forward<T>(val)); // val may belong to the item which is going to be destroyed
 			base::Destruct();
-			AssignVal(std::forward<T>(val));
+			Assign(std::move(other));
 		}
 
 		variant& operator = (const variant& other)
-- 
2.43.0


From e892179ca32c028ae569a48671799d0452dc1b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:26 +0000
Subject: [PATCH 88/99] fix: any must stay empty when the constructor of its
 value throws

---
 stingraykit/any.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stingraykit/any.h b/stingraykit/any.h
index 331d40d..dfc6503 100644
--- a/stingraykit/any.h
+++ b/stingraykit/any.h
@@ -322,8 +322,8 @@ namespace stingray
 		{
 			typedef typename Decay<T>::ValueT RawType;
 
-			_type = Detail::any::CppTypeToAnyUnionType<RawType>::Value;
 			Detail::any::AnyValAccessor<Detail::any::CppTypeToAnyUnionType<RawType>::Value>::Set(_data, std::forward<T>(val));
+			_type = Detail::any::CppTypeToAnyUnionType<RawType>::Value;
 		}
 
 		template < typename T >
-- 
2.43.0


From 2e7469a03abf18fd18aef81b2940aa985c583559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:26 +0000
Subject: [PATCH 89/99] fix: any must survive assignment of itself and of its
 own value

---
 stingraykit/any.h | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/stingraykit/any.h b/stingraykit/any.h
index dfc6503..3095063 100644
--- a/stingraykit/any.h
+++ b/stingraykit/any.h
@@ -287,23 +287,32 @@ namespace stingray
 
 		any& operator = (const any& other)
 		{
-			Destroy();
-			Copy(other);
+			if (this != &other)
+			{
+				any copy(other); // other may belong to the value which is going to be destroyed
+				Destroy();
+				Move(std::move(copy));
+			}
 			return *this;
 		}
 
 		any& operator = (any&& other)
 		{
-			Destroy();
-			Move(std::move(other));
+			if (this != &other)
+			{
+				any moved(std::move(other));
+				Destroy();
+				Move(std::move(moved));
+			}
 			return *this;
 		}
 
 		template < typename T >
 		typename EnableIf<!IsSame<any, typename Decay<T>::ValueT>::Value, any>::ValueT& operator = (T&& val)
 		{
+			any other(std::forward<T>(val)); // val may belong to the value which is going to be destroyed
 			Destroy();
-			Init<T>(std::forward<T>(val));
+			Move(std::move(other));
 			return *this;
 		}
 
-- 
2.43.0


From f3f1d6a2a80a2c3061683a6b2c406bb643482af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:29 +0000
Subject: [PATCH 90/99] fix: keep previous fields when a signed one is appended
 to IntegerBuilder

---
 stingraykit/IntegerBuilder.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/stingraykit/IntegerBuilder.h b/stingraykit/IntegerBuilder.h
index a89d2c2..12962df 100644
--- a/stingraykit/IntegerBuilder.h
+++ b/stingraykit/IntegerBuilder.h
@@ -11,6 +11,8 @@
 
 #include <stingraykit/metaprogramming/TypeTraits.h>
 
+#include <type_traits>
+
 
 namespace stingray
 {
@@ -37,7 +39,7 @@ namespace stingray
 			static_assert(IsFixedWidthInt<U>::Value, "Integer must have fixed width");
 
 			_result <<= fieldSize;
-			_result |= ResetMostSignificantBits(field, 8 * sizeof(U) - fieldSize);
+			_result |= ResetMostSignificantBits(static_cast<typename std::make_unsigned<U>::type>(field), 8 * sizeof(U) - fieldSize);
 
 			return *this;
 		}
-- 
2.43.0


From 50577ad2dd396d92efa7c185ef26e8f01beb807b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:07 +0000
Subject: [PATCH 91/99] fix: report a sleep ended by the timeout of a joined
 token as interrupted

---
 stingraykit/thread/JoiningCancellationToken.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/stingraykit/thread/JoiningCancellationToken.cpp b/stingraykit/thread/JoiningCancellationToken.cpp
index 12f9e7a..baeb9c2 100644
--- a/stingraykit/thread/JoiningCancellationToken.cpp
+++ b/stingraykit/thread/JoiningCancellationToken.cpp
@@ -27,7 +27,10 @@ namespace stingray
 		MutexLock l(_mutex);
 
 		if (duration)
-			return _cond.Wait(_mutex, TimedCancellationToken(*this, *duration)) == ConditionWaitResult::TimedOut;
+		{
+			const optional<TimeDuration> timeout = GetTimeout();
+			return _cond.Wait(_mutex, TimedCancellationToken(*this, *duration)) == ConditionWaitResult::TimedOut && (!timeout || *timeout >= *duration);
+		}
 		else
 		{
 			_cond.Wait(_mutex, *this);
-- 
2.43.0


From b935a679d9fe27e223c04d56a10a3f2c26464ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:07 +0000
Subject: [PATCH 92/99] fix: report waiting for a thread pool with a timed out
 token as timeout

---
 stingraykit/thread/ThreadPool.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stingraykit/thread/ThreadPool.cpp b/stingraykit/thread/ThreadPool.cpp
index 91ab8df..144b7f9 100644
--- a/stingraykit/thread/ThreadPool.cpp
+++ b/stingraykit/thread/ThreadPool.cpp
@@ -214,7 +214,7 @@ namespace stingray
 			}
 		}
 
-		STINGRAYKIT_THROW(OperationCancelledException());
+		STINGRAYKIT_ASSUME_CANCELLATION(token);
 	}
 
 
-- 
2.43.0


From 79ccc7d7b0afa2f9a427260013514b1ed072adf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:57 +0000
Subject: [PATCH 93/99] fix: destroy tasks of a thread pool with unlocked mutex

---
 stingraykit/thread/ThreadPool.cpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/stingraykit/thread/ThreadPool.cpp b/stingraykit/thread/ThreadPool.cpp
index 144b7f9..d80e488 100644
--- a/stingraykit/thread/ThreadPool.cpp
+++ b/stingraykit/thread/ThreadPool.cpp
@@ -101,14 +101,17 @@ namespace stingray
 					continue;
 				}
 
-				{
-					const Task task = *_task;
+				optional<Task> task = _task;
 
+				{
 					MutexUnlock ul(l);
-					ExecuteTask(token, task);
+					ExecuteTask(token, *task);
 				}
 
 				_task.reset();
+
+				MutexUnlock ul(l);
+				task.reset(); // destroy object with unlocked mutex to keep lock order correct
 			}
 		}
 
@@ -257,14 +260,17 @@ namespace stingray
 				continue;
 			}
 
-			{
-				const Task task = *_task;
+			optional<Task> task = _task;
 
+			{
 				MutexUnlock ul(l);
-				ExecuteTask(token, task);
+				ExecuteTask(token, *task);
 			}
 
 			_task.reset();
+
+			MutexUnlock ul(l);
+			task.reset(); // destroy object with unlocked mutex to keep lock order correct
 		}
 	}
 
-- 
2.43.0


From 6f441a460b9bc5e96f36606c230c8ac407adf0d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:47 +0000
Subject: [PATCH 94/99] fix: pass data remaining at end of pipe to its next
 stage

---
 stingraykit/DataPipe.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stingraykit/DataPipe.h b/stingraykit/DataPipe.h
index 7c4f839..55a5b0f 100644
--- a/stingraykit/DataPipe.h
+++ b/stingraykit/DataPipe.h
@@ -54,7 +54,7 @@ namespace stingray {
 			static RetType EndOfData(StagesTuple& stages, const Consumer& consumer, const EodFunc& eod)
 			{
 				return stages.GetHead().EndOfData(
-					Bind(&NextStage::template Process<OutputType, Consumer>, wrap_ref(stages.GetTail()), wrap_const_ref(consumer), _1),
+					Bind(&NextStage::template Process<OutputType, Consumer>, wrap_ref(stages.GetTail()), _1, wrap_const_ref(consumer)),
 					Bind(&NextStage::template EndOfData<Consumer, EodFunc>, wrap_ref(stages.GetTail()), wrap_const_ref(consumer), wrap_const_ref(eod)));
 			}
 
-- 
2.43.0


From fba7dbbdd44de5faff602a7623fe6d815ee8b9e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:47 +0000
Subject: [PATCH 95/99] fix: erase_if for vectors, deques and strings

---
 stingraykit/algorithm.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stingraykit/algorithm.h b/stingraykit/algorithm.h
index 20a69c1..cd3d170 100644
--- a/stingraykit/algorithm.h
+++ b/stingraykit/algorithm.h
@@ -16,7 +16,7 @@ namespace stingray
 	{
 		for (typename Container::iterator it = cont.begin(); it != cont.end(); )
 			if (pred(*it))
-				cont.erase(it++);
+				it = cont.erase(it);
 			else
 				++it;
 	}
-- 
2.43.0


From 74197ef23944174de88cf20dd3d7d35a3ef4c606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:47 +0000
Subject: [PATCH 96/99] fix: find transliterated substrings shorter than their
 transliteration

---
 stingraykit/locale/Translit.cpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/stingraykit/locale/Translit.cpp b/stingraykit/locale/Translit.cpp
index 46e5594..fa7903b 100644
--- a/stingraykit/locale/Translit.cpp
+++ b/stingraykit/locale/Translit.cpp
@@ -42,15 +42,12 @@ namespace stingray
 
 	bool TranslitMatchSubstr(const std::string& translitSubstr, const std::string& str) // TODO: reimplement =)
 	{
-		if (str.size() < translitSubstr.size())
-			return false;
-		
-		for (size_t i = 0; i <= str.size() - translitSubstr.size(); ++i)
+		for (size_t i = 0; i <= str.size(); ++i)
 		{
 			bool ok = true;
 			for (size_t j = 0, j2 = i; j < translitSubstr.size(); ++j, ++j2)
 			{
-				if (str[j2] == translitSubstr[j])
+				if (j2 < str.size() && str[j2] == translitSubstr[j])
 					continue;
 				size_t a = 1, b = 1;
 				if (TranslitMatchChar(&translitSubstr[j], translitSubstr.size() - j, &str[j2], str.size() - j2, a, b))
-- 
2.43.0


From 9dfeb0d85db58b4e3ba9f3e5568096227cd72985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:20 +0000
Subject: [PATCH 97/99] fix: destroy cleared tasks of a threadless executor
 with unlocked mutex

---
 stingraykit/thread/ThreadlessTaskExecutor.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/stingraykit/thread/ThreadlessTaskExecutor.cpp b/stingraykit/thread/ThreadlessTaskExecutor.cpp
index 6424be4..7b16156 100644
--- a/stingraykit/thread/ThreadlessTaskExecutor.cpp
+++ b/stingraykit/thread/ThreadlessTaskExecutor.cpp
@@ -65,12 +65,15 @@ namespace stingray
 
 	void ThreadlessTaskExecutor::ClearTasks()
 	{
-		MutexLock l(_syncRoot);
+		QueueType queue; // destroy tasks with unlocked mutex to keep lock order correct
 
-		if (!_queue.empty())
-			s_logger.Warning() << "[" << _name << "] Clear " << _queue.size() << " tasks";
+		{
+			MutexLock l(_syncRoot);
+			queue.swap(_queue);
+		}
 
-		_queue.clear();
+		if (!queue.empty())
+			s_logger.Warning() << "[" << _name << "] Clear " << queue.size() << " tasks";
 	}
 
 
-- 
2.43.0


From cbcb4544f76b474c4d940bbf05fd45ded56fe8cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:08:44 +0000
Subject: [PATCH 98/99] fix: sum up repeated children of a profile session with
 empty ids

---
 stingraykit/diagnostics/ProfileSession.h | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/stingraykit/diagnostics/ProfileSession.h b/stingraykit/diagnostics/ProfileSession.h
index 7ce22ab..ccbce46 100644
--- a/stingraykit/diagnostics/ProfileSession.h
+++ b/stingraykit/diagnostics/ProfileSession.h
@@ -35,7 +35,7 @@ namespace stingray
 			u64				Time;
 			ChildrenMap		Children;
 
-			SessionInfo() { }
+			SessionInfo() : Time(0) { }
 
 			SessionInfo(const std::string& id) : Id(id), Time(0) { }
 
@@ -100,14 +100,10 @@ namespace stingray
 
 		static void AddChildren(SessionInfo& to, const SessionInfo& from)
 		{
-			if (to.Id.empty())
-				to = from;
-			else
-			{
-				to.Time += from.Time;
-				for (SessionInfo::ChildrenMap::const_iterator it = from.Children.begin(); it != from.Children.end(); ++it)
-					AddChildren(to.Children[it->first], it->second);
-			}
+			to.Id = from.Id;
+			to.Time += from.Time;
+			for (SessionInfo::ChildrenMap::const_iterator it = from.Children.begin(); it != from.Children.end(); ++it)
+				AddChildren(to.Children[it->first], it->second);
 		}
 	};
 
-- 
2.43.0


From da830af8baaf2a9188f70ad00f37ff05d7e8da49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:16:17 +0000
Subject: [PATCH 99/99] fix: do not use destroyed thread local values in
 destructors of other thread local values

---
 stingraykit/thread/posix/ThreadLocal.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/stingraykit/thread/posix/ThreadLocal.h b/stingraykit/thread/posix/ThreadLocal.h
index c072a4b..937fee2 100644
--- a/stingraykit/thread/posix/ThreadLocal.h
+++ b/stingraykit/thread/posix/ThreadLocal.h
@@ -74,7 +74,11 @@
 		} \
 	private: \
 		static void Dtor(void* val) \
-		{ ValueHolder* holder = static_cast<ValueHolder*>(val); stingray::CheckedDelete(holder); } \
+		{ \
+			ValueHolder* holder = static_cast<ValueHolder*>(val); \
+			stingray::CheckedDelete(holder); \
+			s_value = NULL; \
+		} \
 	};
 
 #	define STINGRAYKIT_DEFINE_THREAD_LOCAL(Type_, Name_) __thread Type_* Name_::s_value = NULL
-- 
2.43.0

