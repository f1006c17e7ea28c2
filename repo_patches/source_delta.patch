From 5412eb6b9e9051c639382d0459efadea405ba563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:02 +0000
Subject: [PATCH 01/37] Add simulation seams guarded by T86_SIM

---
 src/t86/config.cpp                  |  9 ++++----
 src/t86/cpu.cpp                     |  6 +++--
 src/t86/cpu/reservation_station.cpp |  3 +++
 src/t86/sim_hooks.h                 | 36 +++++++++++++++++++++++++++++
 4 files changed, 48 insertions(+), 6 deletions(-)
 create mode 100644 src/t86/sim_hooks.h

diff --git a/src/t86/config.cpp b/src/t86/config.cpp
index 3b96b1f..a2a9820 100644
--- a/src/t86/config.cpp
+++ b/src/t86/config.cpp
@@ -1,15 +1,16 @@
 #include "ram.h"
 #include "cpu.h"
 #include "instruction.h"
+#include "sim_hooks.h"
 
 namespace tiny::t86 {
 
-    std::size_t RAM::readLatency(std::size_t) const {
-        return 5;
+    std::size_t RAM::readLatency([[maybe_unused]] std::size_t address) const {
+        return T86_SIM_ASK(readLatency(address, 5), 5);
     }
 
-    std::size_t RAM::writeLatency(std::size_t) const {
-        return 5;
+    std::size_t RAM::writeLatency([[maybe_unused]] std::size_t address) const {
+        return T86_SIM_ASK(writeLatency(address, 5), 5);
     }
 
     std::size_t MOV::length() const {
diff --git a/src/t86/cpu.cpp b/src/t86/cpu.cpp
index 34d7ccc..0ba7014 100644
--- a/src/t86/cpu.cpp
+++ b/src/t86/cpu.cpp
@@ -4,6 +4,7 @@
 
 #include "cpu.h"
 #include "execution_error.h"
+#include "sim_hooks.h"
 #include "utils/stats_logger.h"
 #include "cpu/branch_predictors/naive_branch_predictor.h"
 #include "common/config.h"
@@ -46,7 +47,7 @@ namespace tiny::t86 {
         reservationStation_.fetchAndStartExecution();
 
         if (instructionDecode_) {
-            if (reservationStation_.hasFreeEntry()) {
+            if (reservationStation_.hasFreeEntry() && !T86_SIM_ASK(stallIssue(), false)) {
                 reservationStation_.add(instructionDecode_->instruction, instructionDecode_->pc, instructionDecode_->loggingId);
                 instructionDecode_ = std::nullopt;
             }
@@ -57,7 +58,7 @@ namespace tiny::t86 {
             std::swap(instructionDecode_, instructionFetch_);
         }
 
-        if (!instructionFetch_) {
+        if (!instructionFetch_ && !T86_SIM_ASK(stallFetch(), false)) {
             instructionFetch_ = fetchInstruction();
         }
 
@@ -76,6 +77,7 @@ namespace tiny::t86 {
         const auto* instruction = &program_.at(speculativeProgramCounter_);
         if (auto jumpInstruction = dynamic_cast<const JumpInstruction*>(instruction); jumpInstruction) {
             speculativeProgramCounter_ = branchPredictor_->nextGuess(speculativeProgramCounter_, *jumpInstruction);
+            speculativeProgramCounter_ = T86_SIM_ASK(branchGuess(oldPc, speculativeProgramCounter_), speculativeProgramCounter_);
             predictions_.push_back(speculativeProgramCounter_);
         }
         else {
diff --git a/src/t86/cpu/reservation_station.cpp b/src/t86/cpu/reservation_station.cpp
index e0ec5cf..d6815c5 100644
--- a/src/t86/cpu/reservation_station.cpp
+++ b/src/t86/cpu/reservation_station.cpp
@@ -1,5 +1,6 @@
 #include "reservation_station.h"
 #include "../cpu.h"
+#include "../sim_hooks.h"
 #include "../utils/stats_logger.h"
 #include "logger.h"
 
@@ -32,6 +33,7 @@ namespace tiny::t86 {
                 Entry entry = std::move(entries_.front());
                 entries_.pop_front();
                 entry.logRetirement();
+                T86_SIM_TELL(retired());
                 entry.retire();
             }
             else {
@@ -260,6 +262,7 @@ namespace tiny::t86 {
               cpu_(cpu),
               loggingId_(loggingId) {
         remainingExecutionTime_ = Cpu::Config::instance().getExecutionLength(instruction);
+        remainingExecutionTime_ = T86_SIM_ASK(executionLength(remainingExecutionTime_), remainingExecutionTime_);
     }
 
     bool ReservationStation::Entry::allOperandsFetched() const {
diff --git a/src/t86/sim_hooks.h b/src/t86/sim_hooks.h
new file mode 100644
index 0000000..3cc90b8
--- /dev/null
+++ b/src/t86/sim_hooks.h
@@ -0,0 +1,36 @@
+#pragma once
+/// Seams for deterministic simulation. Everything here is compiled only when
+/// T86_SIM is defined; otherwise the macros expand to the normal value and
+/// the machine behaves as if this header did not exist.
+#include <cstddef>
+#include <cstdint>
+
+#ifdef T86_SIM
+namespace tiny::t86::sim {
+    /// The simulator's answers to the questions whose answer is a matter of
+    /// timing or guessing, never of program semantics.
+    class Hooks {
+    public:
+        virtual ~Hooks() = default;
+        /// Ticks the execution of an instruction takes.
+        virtual std::size_t executionLength(std::size_t normal) { return normal; }
+        virtual std::size_t readLatency(std::size_t /*address*/, std::size_t normal) { return normal; }
+        virtual std::size_t writeLatency(std::size_t /*address*/, std::size_t normal) { return normal; }
+        /// Where the front end goes on fetching after the jump at pc.
+        virtual uint64_t branchGuess(uint64_t /*pc*/, uint64_t normal) { return normal; }
+        /// If true, the front end does not fetch in this tick.
+        virtual bool stallFetch() { return false; }
+        /// If true, no decoded instruction is issued in this tick.
+        virtual bool stallIssue() { return false; }
+        /// An instruction has been retired.
+        virtual void retired() {}
+    };
+
+    inline Hooks* hooks = nullptr;
+}
+#define T86_SIM_ASK(question, normal) (::tiny::t86::sim::hooks ? ::tiny::t86::sim::hooks->question : (normal))
+#define T86_SIM_TELL(event) do { if (::tiny::t86::sim::hooks) ::tiny::t86::sim::hooks->event; } while (false)
+#else
+#define T86_SIM_ASK(question, normal) (normal)
+#define T86_SIM_TELL(event) do {} while (false)
+#endif
-- 
2.43.0


From 39b4c0634555bf94f26586108a3074575da0a7d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:40 +0000
Subject: [PATCH 02/37] fix: LEA with two registers read a third operand that
 does not exist

---
 src/t86/instruction.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/t86/instruction.cpp b/src/t86/instruction.cpp
index 07bc03e..7f02513 100644
--- a/src/t86/instruction.cpp
+++ b/src/t86/instruction.cpp
@@ -676,7 +676,7 @@ INS_NAME::INS_NAME(Operand address) : ConditionalJumpInstruction([](Alu::Flags f
             assert(operands.size() == 2);
             address = Operand::supply(
                     Operand::supply(mem_.getMemoryRegisterRegister(), operands[0].getValue()),
-                    operands[2].getValue()
+                    operands[1].getValue()
             ).index();
         }
         else if (mem_.isMemoryRegisterOffsetRegister()) {
-- 
2.43.0


From d351a27c4e4504faa6ea34a82dca8549a269a244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:40 +0000
Subject: [PATCH 03/37] fix: references to pending memory writes dangled when
 another write to the same cell was added or removed

---
 .../cpu/memory_writes_manager/memory_writes.cpp    |  4 ++--
 src/t86/cpu/memory_writes_manager/memory_writes.h  | 14 ++++++++------
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/t86/cpu/memory_writes_manager/memory_writes.cpp b/src/t86/cpu/memory_writes_manager/memory_writes.cpp
index 9526ca3..2676d90 100644
--- a/src/t86/cpu/memory_writes_manager/memory_writes.cpp
+++ b/src/t86/cpu/memory_writes_manager/memory_writes.cpp
@@ -4,11 +4,11 @@
 #include <algorithm>
 
 namespace tiny::t86 {
-    std::vector<MemoryWrite>::iterator MemoryWrites::find(MemoryWrite::Id id) {
+    std::list<MemoryWrite>::iterator MemoryWrites::find(MemoryWrite::Id id) {
         return std::lower_bound(writes_.begin(), writes_.end(), id, comp);
     }
 
-    std::vector<MemoryWrite>::const_iterator MemoryWrites::find(MemoryWrite::Id id) const {
+    std::list<MemoryWrite>::const_iterator MemoryWrites::find(MemoryWrite::Id id) const {
         return std::lower_bound(writes_.begin(), writes_.end(), id, comp);
     }
 
diff --git a/src/t86/cpu/memory_writes_manager/memory_writes.h b/src/t86/cpu/memory_writes_manager/memory_writes.h
index 9edf239..225191a 100644
--- a/src/t86/cpu/memory_writes_manager/memory_writes.h
+++ b/src/t86/cpu/memory_writes_manager/memory_writes.h
@@ -1,8 +1,10 @@
 #pragma once
 
 #include <utility>
+#include <list>
 #include <optional>
 #include <set>
+#include <vector>
 
 #include "../../ram.h"
 #include "memory_write.h"
@@ -43,14 +45,14 @@ namespace tiny::t86 {
             return e.id() > i;
         }
 
-        // This vector is sorted using comp function, so that we can find writes
+        // This list is sorted using comp function, so that we can find writes
         // with id up to some value
-        // List would have slow lookup times, but better insertions
+        // It must be a list, because references returned from add() have to stay
+        // valid when other writes are added or removed
         // Set does not allow modifications of it's elements once inserted
-        // Might change to list in the future after some benchmarking
-        std::vector<MemoryWrite> writes_;
+        std::list<MemoryWrite> writes_;
 
-        std::vector<MemoryWrite>::iterator find(MemoryWrite::Id id);
-        std::vector<MemoryWrite>::const_iterator find(MemoryWrite::Id id) const;
+        std::list<MemoryWrite>::iterator find(MemoryWrite::Id id);
+        std::list<MemoryWrite>::const_iterator find(MemoryWrite::Id id) const;
     };
 }
-- 
2.43.0


From 2f01a5c679d3909f64a7244919e1fa28ece65162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:50 +0000
Subject: [PATCH 04/37] fix: naming a missing register or failing in execution
 on a wrong path stopped the program

The exceptions are now kept in the reservation station entry and thrown at
its retirement, as was already done for reads of invalid memory.
---
 src/t86/cpu/reservation_station.cpp | 40 ++++++++++++++++++++++++-----
 src/t86/cpu/reservation_station.h   |  7 ++++-
 2 files changed, 40 insertions(+), 7 deletions(-)

diff --git a/src/t86/cpu/reservation_station.cpp b/src/t86/cpu/reservation_station.cpp
index d6815c5..c2c9586 100644
--- a/src/t86/cpu/reservation_station.cpp
+++ b/src/t86/cpu/reservation_station.cpp
@@ -49,6 +49,7 @@ namespace tiny::t86 {
                 case Entry::State::preparing: {
                     entry.logPreparing();
                     bool fetchStall{false};
+                    try {
                     for (Operand& operand : entry.operands()) {
                         // Check if we need to fetch and fetch as much as we can right now
                         while(!operand.isFetched()) {
@@ -107,6 +108,11 @@ namespace tiny::t86 {
                             }
                         }
                     }
+                    } catch (...) {
+                        // An operand that does not exist
+                        entry.fail(std::current_exception());
+                        break;
+                    }
                     if (fetchStall) {
                         entry.logStallFetch();
                     }
@@ -156,6 +162,8 @@ namespace tiny::t86 {
         cpu_.setRegister(Register::ProgramCounter(), nextPc);
         RegisterAllocationTable readRat = cpu_.getRat();
         std::vector<MemoryWrite::Id> memWriteIds;
+        std::exception_ptr fault;
+        try {
         for (const auto& product : instruction->produces()) {
             if (product.isRegister()) {
                 Register reg = product.getRegister();
@@ -174,6 +182,10 @@ namespace tiny::t86 {
                 assert(false && "Missing product type");
             }
         }
+        } catch (...) {
+            // A destination that does not exist
+            fault = std::current_exception();
+        }
         RegisterAllocationTable writeRat = cpu_.getRat();
         auto& entry = entries_.emplace_back(instruction, cpu_,
                               std::move(readRat), std::move(writeRat),
@@ -182,6 +194,10 @@ namespace tiny::t86 {
 
         // Log as preparing status
         entry.logPreparing();
+        if (fault) {
+            entry.fail(fault);
+            return;
+        }
         // Check if ready (for some instructions that do not have any operands)
         entry.checkReady();
     }
@@ -278,7 +294,13 @@ namespace tiny::t86 {
         }
         // This is done "two-steps" because some instructions might have zero execution tickCount required
         if (remainingExecutionTime_ == 0) {
-            instruction_->execute(*this);
+            if (!fault_) {
+                try {
+                    instruction_->execute(*this);
+                } catch (...) {
+                    fault_ = std::current_exception();
+                }
+            }
             state_ = State::retiring;
             return true;
         }
@@ -305,12 +327,18 @@ namespace tiny::t86 {
         }
     }
 
+    void ReservationStation::Entry::fail(std::exception_ptr fault) {
+        assert(state_ == State::preparing && "Only instruction that did not start execution yet can be failed");
+        fault_ = std::move(fault);
+        state_ = State::retiring;
+    }
+
     void ReservationStation::Entry::retire() {
-        instruction_->retire(*this);
-        // delay throwing illegal read exception until we know that the instruction will be executed
-        if (memoryAccessException_) {
-            std::rethrow_exception(memoryAccessException_);
+        // delay throwing exceptions until we know that the instruction will be executed
+        if (fault_) {
+            std::rethrow_exception(fault_);
         }
+        instruction_->retire(*this);
 
         // Handle single step with trapflags here
         if (cpu_.isTrapFlagSet()) {
@@ -352,7 +380,7 @@ namespace tiny::t86 {
         try {
             return cpu_.readMemory(address, maxWriteId_);
         } catch(...) {
-            memoryAccessException_ = std::current_exception();
+            fault_ = std::current_exception();
             return {-1};
         }
     }
diff --git a/src/t86/cpu/reservation_station.h b/src/t86/cpu/reservation_station.h
index a238f05..5c8ee66 100644
--- a/src/t86/cpu/reservation_station.h
+++ b/src/t86/cpu/reservation_station.h
@@ -6,6 +6,7 @@
 #include "../cpu/memory_writes_manager/memory_write.h"
 #include "../utils/stats_logger.h"
 
+#include <exception>
 #include <list>
 #include <vector>
 #include <optional>
@@ -83,6 +84,10 @@ namespace tiny::t86 {
 
         void checkReady();
 
+        /// The instruction can't be executed, the fault is thrown
+        /// if (and only if) the instruction gets to retirement.
+        void fail(std::exception_ptr fault);
+
         void startExecution();
 
         bool executionTick();
@@ -172,6 +177,6 @@ namespace tiny::t86 {
 
         std::size_t loggingId_;
 
-        std::exception_ptr memoryAccessException_;
+        std::exception_ptr fault_;
     };
 }
-- 
2.43.0


From 6f173ba52f81d66d88e55a2ca5a5cd3556d0caa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:50 +0000
Subject: [PATCH 05/37] fix: integer division by zero or with unrepresentable
 quotient killed the virtual machine

---
 src/t86/cpu/alu.cpp | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/t86/cpu/alu.cpp b/src/t86/cpu/alu.cpp
index 4132f59..1c0242e 100644
--- a/src/t86/cpu/alu.cpp
+++ b/src/t86/cpu/alu.cpp
@@ -1,4 +1,5 @@
 #include "alu.h"
+#include "../execution_error.h"
 
 #include <limits>
 #include <cmath>
@@ -66,6 +67,9 @@ namespace tiny::t86::Alu {
     Result divide(int64_t x, int64_t y) {
         uint64_t ux = static_cast<uint64_t>(x);
         uint64_t uy = static_cast<uint64_t>(y);
+        if (uy == 0) {
+            throw T86ExecutionError("Division by zero");
+        }
         uint64_t uresult = ux / uy;
         int64_t result = static_cast<int64_t>(uresult);
         bool signFlag = result < 0;
@@ -76,15 +80,26 @@ namespace tiny::t86::Alu {
     }
 
     Result signed_multiply(int64_t x, int64_t y) {
-        int64_t result = x * y;
+        int64_t result;
+        bool overflowFlag = __builtin_mul_overflow(x, y, &result);
         bool signFlag = result < 0;
         bool zeroFlag = result == 0;
         bool carryFlag = false;
-        bool overflowFlag = x != 0 && y != 0 && x != result / y;
         return Result{result, Flags{signFlag, zeroFlag, carryFlag, overflowFlag}};
     }
 
+    /// Throws if the host could not perform the division.
+    static void checkSignedDivision(int64_t x, int64_t y) {
+        if (y == 0) {
+            throw T86ExecutionError("Division by zero");
+        }
+        if (x == std::numeric_limits<int64_t>::min() && y == -1) {
+            throw T86ExecutionError("Division overflow");
+        }
+    }
+
     Result signed_divide(int64_t x, int64_t y) {
+        checkSignedDivision(x, y);
         int64_t result = x / y;
         bool signFlag = result < 0;
         bool zeroFlag = result == 0;
@@ -174,6 +189,7 @@ namespace tiny::t86::Alu {
     
     // TODO Remove after testing
     Result mod(int64_t x, int64_t y) {
+        checkSignedDivision(x, y);
         int64_t result = x % y;
         bool signFlag = result < 0;
         bool zeroFlag = result == 0;
-- 
2.43.0


From 57b3b58e1cac74dad74d7d518c95644ce617171e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:50 +0000
Subject: [PATCH 06/37] fix: GETCHAR at the end of input stored an
 uninitialised character

---
 src/t86/instruction.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/t86/instruction.cpp b/src/t86/instruction.cpp
index 7f02513..f5d1a9e 100644
--- a/src/t86/instruction.cpp
+++ b/src/t86/instruction.cpp
@@ -719,7 +719,8 @@ INS_NAME::INS_NAME(Operand address) : ConditionalJumpInstruction([](Alu::Flags f
     }
 
     void GETCHAR::retire(ReservationStation::Entry& entry) const {
-        char c;
+        // If there is no more input, the register is set to zero
+        char c = 0;
         is_ >> c;
         entry.setRegister(reg_, c);
     }
-- 
2.43.0


From e020e307a9481db96610bfd4e91b25032e7ec129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:17:47 +0000
Subject: [PATCH 07/37] fix: a single step that ended in a breakpoint or
 watchpoint stop caused a second, spurious step stop later

---
 src/t86/debug.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/t86/debug.cpp b/src/t86/debug.cpp
index 9044c52..92228ae 100644
--- a/src/t86/debug.cpp
+++ b/src/t86/debug.cpp
@@ -103,10 +103,9 @@ namespace tiny::t86 {
     /// which will communicate with the client.
     /// Should be called on any break situation.
     bool Debug::Work(BreakReason reason) {
-        if (reason == BreakReason::SingleStep) {
-            log_info("Debug handler: After singlestep");
-            cpu.unsetTrapFlag();
-        } 
+        // A requested single step ends with the next stop, whatever the reason
+        // of that stop was.
+        cpu.unsetTrapFlag();
         log_info("Sending stop message to the debugger");
         messenger->Send("STOPPED");
         
-- 
2.43.0


From e79bda86980dbf34f7425929e6df6f76ee429838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:17:47 +0000
Subject: [PATCH 08/37] fix: a removed watchpoint stayed active in the machine,
 and replacing the watchpoints walked an erased map entry

---
 src/debugger/Native.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/debugger/Native.cpp b/src/debugger/Native.cpp
index e2b1d8b..790053b 100644
--- a/src/debugger/Native.cpp
+++ b/src/debugger/Native.cpp
@@ -273,8 +273,8 @@ void Native::SetAllBreakpoints(std::map<uint64_t, SoftwareBreakpoint> bkpts) {
 }
 
 void Native::SetAllWatchpoints(std::map<uint64_t, Watchpoint> watchpoints) {
-    for (auto&& wp: this->watchpoints) {
-        RemoveWatchpoint(wp.first);
+    while (!this->watchpoints.empty()) {
+        RemoveWatchpoint(this->watchpoints.begin()->first);
     }
 
     for (auto&& wp: watchpoints) {
@@ -377,11 +377,12 @@ void Native::SetWatchpointWrite(uint64_t address) {
 void Native::RemoveWatchpoint(uint64_t address) {
     auto wp = watchpoints.find(address);
     if (wp == watchpoints.end()) {
-        throw DebuggerError("A watchpoint is already set on that address.");
+        throw DebuggerError("No watchpoint is set on that address.");
     }
     
     auto dbg_regs = process->FetchDebugRegisters();
     Arch::DeactivateDebugRegister(wp->second.hw_reg, dbg_regs);
+    process->SetDebugRegisters(dbg_regs);
     watchpoints.erase(address); 
 }
 
-- 
2.43.0


From 6b70500e2a8291fb10cb938ca8056641a79dfb34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:18:45 +0000
Subject: [PATCH 09/37] fix: floats in shown instructions lost digits, so a
 breakpoint on such an instruction changed it

---
 src/t86/instructions/operand.cpp | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/t86/instructions/operand.cpp b/src/t86/instructions/operand.cpp
index c4bbc97..3567b54 100644
--- a/src/t86/instructions/operand.cpp
+++ b/src/t86/instructions/operand.cpp
@@ -3,9 +3,26 @@
 #include "helpers.h"
 
 #include <cassert>
+#include <cstdio>
+#include <cstdlib>
 
 
 namespace tiny::t86 {
+    namespace {
+        /// Writes the value in the notation of the assembler, with as many
+        /// digits as it takes to read the same value back.
+        std::string floatToString(double value) {
+            constexpr int minDigits = 6, maxDigits = 1074;
+            char buffer[1400];
+            for (int digits = minDigits; digits <= maxDigits; ++digits) {
+                std::snprintf(buffer, sizeof(buffer), "%.*f", digits, value);
+                if (std::strtod(buffer, nullptr) == value) {
+                    break;
+                }
+            }
+            return buffer;
+        }
+    }
 
     Operand::Operand(int64_t value) : value_(value) {}
 
@@ -417,7 +434,7 @@ namespace tiny::t86 {
         } else if (isMemoryRegisterOffsetRegisterScaled()) {
             return getMemoryRegisterOffsetRegisterScaled().toString();
         } else if (isFloatValue()) {
-            return std::to_string(getFloatValue());
+            return floatToString(getFloatValue());
         } else if (isFloatRegister()) {
             return getFloatRegister().toString();
         }
-- 
2.43.0


From 7d678cff2bf94fee5e5b40baceb2044787acd9d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:21:31 +0000
Subject: [PATCH 10/37] fix: memory set by the debugger was not seen by the
 program while a read or write of that cell was on the way

---
 src/t86/ram.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/t86/ram.cpp b/src/t86/ram.cpp
index 1797e99..53af2ba 100644
--- a/src/t86/ram.cpp
+++ b/src/t86/ram.cpp
@@ -75,6 +75,12 @@ namespace tiny::t86 {
 
     void RAM::set(std::size_t address, int64_t value) {
         mem_.at(address) = value;
+        // Reads and writes still on the way carry the previous value
+        reads_.erase(address);
+        if (auto it = writes_.find(address); it != writes_.end()) {
+            writesById_.erase(it->second.id);
+            writes_.erase(it);
+        }
     }
 
     std::size_t RAM::size() const {
-- 
2.43.0


From 07ba3bfa8520d353fa3351c3cf86fd459f58a1a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:21:31 +0000
Subject: [PATCH 11/37] fix: disabled breakpoints hid or replaced the code, and
 refused code writes were partly done

---
 src/debugger/Native.cpp     | 20 ++++++++++++--------
 src/debugger/T86Process.cpp |  2 ++
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/debugger/Native.cpp b/src/debugger/Native.cpp
index 790053b..5283278 100644
--- a/src/debugger/Native.cpp
+++ b/src/debugger/Native.cpp
@@ -78,19 +78,22 @@ void Native::WriteText(uint64_t address, std::vector<std::string> text) {
             fmt::format("Writing text at range {}-{}, but text size is {}",
                         address, address + text.size(), text_size));
     }
-    // Some of the code we want to rewrite might
-    // be occupied by a breakpoint, so instead
-    // we write it into its saved data and
-    // persist the breakpoint in the debuggee.
+    process->WriteText(address, text);
+    // Some of the code we have rewritten might
+    // be occupied by a breakpoint, so we have to
+    // put it there again, over the new code.
     for (size_t i = 0; i < text.size(); ++i) {
         uint64_t curr_addr = i + address;
         auto bp = software_breakpoints.find(curr_addr);
-        if (bp != software_breakpoints.end()) {
-            bp->second.data = text[i];
-            text[i] = GetSoftwareBreakpointOpcode();
+        if (bp == software_breakpoints.end()) {
+            continue;
+        }
+        if (bp->second.enabled) {
+            bp->second = CreateSoftwareBreakpoint(curr_addr);
+        } else {
+            bp->second.data = process->ReadText(curr_addr, 1).at(0);
         }
     }
-    process->WriteText(address, text);
 }
 
 DebugEvent Native::PerformSingleStep() {
@@ -261,6 +264,7 @@ void Native::SetAllBreakpoints(std::map<uint64_t, SoftwareBreakpoint> bkpts) {
     for (auto&& bp: software_breakpoints) {
         DisableSoftwareBreakpoint(bp.first);
     }
+    software_breakpoints.clear();
 
     for (auto&& breakpoint: bkpts) {
         auto& [address, bp] = breakpoint;
diff --git a/src/debugger/T86Process.cpp b/src/debugger/T86Process.cpp
index 69cde65..1a33fe1 100644
--- a/src/debugger/T86Process.cpp
+++ b/src/debugger/T86Process.cpp
@@ -16,6 +16,8 @@ void T86Process::WriteText(uint64_t address,
         } catch (const ParserError& err) {
             throw DebuggerError(fmt::format("Error in parsing instruction: {}", err.what()));
         }
+    }
+    for (size_t i = 0; i < data.size(); ++i) {
         process->Send(fmt::format("POKETEXT {} {}", address + i, data[i]));
         CheckResponse("POKETEXT error");
     }
-- 
2.43.0


From d550b2b4dc643c4e0cd0f1943e52e469acecbeb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:21:50 +0000
Subject: [PATCH 12/37] fix: step over lost events of the call instruction,
 skipped breakpoints at the callee's start and ran past a disabled breakpoint
 after the call

---
 src/debugger/Native.cpp | 43 ++++++++++++++++++++++-------------------
 1 file changed, 23 insertions(+), 20 deletions(-)

diff --git a/src/debugger/Native.cpp b/src/debugger/Native.cpp
index 5283278..55977ce 100644
--- a/src/debugger/Native.cpp
+++ b/src/debugger/Native.cpp
@@ -124,13 +124,18 @@ DebugEvent Native::PerformStepOver(bool skip_bp) {
     auto is_call = std::find_if(calls.begin(), calls.end(),
                                 [&text](auto&& ins) { return text.starts_with(ins); });
     if (is_call != calls.end()) {
-        bool bp_exists = software_breakpoints.contains(ip + 1);
+        auto call_bp = software_breakpoints.find(ip);
+        if (!skip_bp && call_bp != software_breakpoints.end() && call_bp->second.enabled) {
+            // Report the breakpoint on current line.
+            return DoRawSingleStep();
+        }
+        auto return_bp = software_breakpoints.find(ip + 1);
+        bool bp_exists = return_bp != software_breakpoints.end();
+        bool bp_enabled = bp_exists && return_bp->second.enabled;
         if (!bp_exists) {
             SetBreakpoint(ip + 1); 
-        }
-        // To step over a breakpoint on current line.
-        if (skip_bp) {
-            PerformSingleStep();
+        } else if (!bp_enabled) {
+            EnableSoftwareBreakpoint(ip + 1);
         }
         // There is a problem with recursive functions. They can hit the breakpoint
         // also. We do this bold heuristic where we check if the BP is the same,
@@ -138,35 +143,33 @@ DebugEvent Native::PerformStepOver(bool skip_bp) {
         // this guy, especially if they're recursive.
         auto bp = GetRegister("BP");
         DebugEvent e;
+        bool returned = false;
         while (true) {
+            // Steps over a breakpoint on the current line by itself.
             ContinueExecution();
             e = WaitForDebugEvent();
-            // If we landed on the same position we came from
-            if (bp == GetRegister("BP")
-                    && GetIP() == ip + 1
-                    && std::holds_alternative<BreakpointHit>(e)) {
-                break;
-            }
-            // If other breakpoint happened
-            if (std::holds_alternative<BreakpointHit>(e)
-                    && GetIP() != ip + 1) {
+            // Other breakpoint or totally other event
+            if (!std::holds_alternative<BreakpointHit>(e)
+                    || GetIP() != ip + 1) {
                 break;
             }
-            // Totally other event
-            if (!std::holds_alternative<BreakpointHit>(e)) {
+            // If we landed on the same position we came from
+            if (bp == GetRegister("BP")) {
+                returned = true;
                 break;
             }
         }
 
         if (!bp_exists) {
             UnsetBreakpoint(ip + 1);
+        } else if (!bp_enabled) {
+            DisableSoftwareBreakpoint(ip + 1);
         }
-        // We probably hit some other breakpoint in the call.
-        if (GetIP() != ip + 1) {
-            return e;
-        } else {
+        if (returned) {
             return Singlestep{};
         }
+        // We probably hit some other breakpoint in the call.
+        return e;
     } else {
         if (skip_bp) {
             return PerformSingleStep();
-- 
2.43.0


From 6c52686db45b2ec25e9a34682294ce4297d4b41c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:53 +0000
Subject: [PATCH 13/37] fix: step over and step out did not see the call or
 return at a breakpoint that was disabled before a restart

---
 src/debugger/Native.cpp | 15 +++++++++++++--
 src/debugger/Native.h   |  4 ++++
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/debugger/Native.cpp b/src/debugger/Native.cpp
index 55977ce..6fb0dfb 100644
--- a/src/debugger/Native.cpp
+++ b/src/debugger/Native.cpp
@@ -71,6 +71,17 @@ std::vector<std::string> Native::ReadText(uint64_t address, size_t amount) {
     return text;
 }
 
+std::string Native::InstructionAt(uint64_t address) {
+    auto text = ReadText(address, 1).at(0);
+    auto bp = software_breakpoints.find(address);
+    // The code isn't replaced with an opcode here, and the saved
+    // data aren't known if the breakpoint was never enabled.
+    if (bp != software_breakpoints.end() && !bp->second.enabled) {
+        return process->ReadText(address, 1).at(0);
+    }
+    return text;
+}
+
 void Native::WriteText(uint64_t address, std::vector<std::string> text) {
     auto text_size = TextSize();
     if (address + text.size() > text_size) {
@@ -119,7 +130,7 @@ DebugEvent Native::PerformStepOver(bool skip_bp) {
             "Singlestep is not supported for current architecture");
     }
     auto ip = GetIP();
-    auto text = ReadText(ip, 1)[0];
+    auto text = InstructionAt(ip);
     auto calls = Arch::GetCallInstructions();
     auto is_call = std::find_if(calls.begin(), calls.end(),
                                 [&text](auto&& ins) { return text.starts_with(ins); });
@@ -188,7 +199,7 @@ DebugEvent Native::PerformStepOut() {
     bool skip_bp = true;
     while (true) {
         auto ip = GetIP();
-        auto text = ReadText(ip, 1).at(0);
+        auto text = InstructionAt(ip);
         auto rets = Arch::GetReturnInstructions();
         auto is_return =
             std::find_if(rets.begin(), rets.end(),
diff --git a/src/debugger/Native.h b/src/debugger/Native.h
index d422705..39c9ca4 100644
--- a/src/debugger/Native.h
+++ b/src/debugger/Native.h
@@ -170,6 +170,10 @@ protected:
     /// Returns SW BP opcode for current architecture.
     std::string_view GetSoftwareBreakpointOpcode() const;
 
+    /// Returns the instruction which is at given address,
+    /// regardless of breakpoints.
+    std::string InstructionAt(uint64_t address);
+
     /// Creates new enabled software breakpoint at given address.
     SoftwareBreakpoint CreateSoftwareBreakpoint(uint64_t address);
 
-- 
2.43.0


From e09b6499f6928ebf968c1ee4e01d82700bac0866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:53 +0000
Subject: [PATCH 14/37] fix: debugger accepted wrapping address ranges and
 failed on lost replies and too big numbers

---
 src/common/parsing.cpp      | 16 ++++++++++------
 src/debugger/Native.cpp     |  4 ++--
 src/debugger/T86Process.cpp |  8 ++++----
 src/debugger/T86Process.h   |  3 +++
 4 files changed, 19 insertions(+), 12 deletions(-)

diff --git a/src/common/parsing.cpp b/src/common/parsing.cpp
index ec2cc2a..b9f95a8 100644
--- a/src/common/parsing.cpp
+++ b/src/common/parsing.cpp
@@ -13,12 +13,16 @@ TokenKind Lexer::ParseNumber() {
         }
         num += lookahead;
     }
-    if (is_float) {
-        float_number = std::stod(num);
-        return TokenKind::FLOAT;
-    } else {
-        number = std::stoi(num);
-        return TokenKind::NUM;
+    try {
+        if (is_float) {
+            float_number = std::stod(num);
+            return TokenKind::FLOAT;
+        } else {
+            number = std::stoi(num);
+            return TokenKind::NUM;
+        }
+    } catch (const std::out_of_range&) {
+        throw ParserError("Number '" + num + "' is out of range");
     }
 }
 
diff --git a/src/debugger/Native.cpp b/src/debugger/Native.cpp
index 6fb0dfb..4675543 100644
--- a/src/debugger/Native.cpp
+++ b/src/debugger/Native.cpp
@@ -53,7 +53,7 @@ void Native::DisableSoftwareBreakpoint(uint64_t address) {
 std::vector<std::string> Native::ReadText(uint64_t address, size_t amount) {
     // TODO: Needs to replace if some breakpoints are set.
     auto text_size = TextSize();
-    if (address + amount > text_size) {
+    if (amount > text_size || address > text_size - amount) {
         throw DebuggerError(
             fmt::format("Reading text at range {}-{}, but text size is {}",
                         address, address + amount, text_size));
@@ -84,7 +84,7 @@ std::string Native::InstructionAt(uint64_t address) {
 
 void Native::WriteText(uint64_t address, std::vector<std::string> text) {
     auto text_size = TextSize();
-    if (address + text.size() > text_size) {
+    if (text.size() > text_size || address > text_size - text.size()) {
         throw DebuggerError(
             fmt::format("Writing text at range {}-{}, but text size is {}",
                         address, address + text.size(), text_size));
diff --git a/src/debugger/T86Process.cpp b/src/debugger/T86Process.cpp
index 1a33fe1..6d22d54 100644
--- a/src/debugger/T86Process.cpp
+++ b/src/debugger/T86Process.cpp
@@ -29,7 +29,7 @@ void T86Process::WriteText(uint64_t address,
 std::vector<std::string> T86Process::ReadText(uint64_t address, size_t amount) {
     process->Send(fmt::format("PEEKTEXT {} {}", address, amount));
     auto text = process->Receive();
-    if (!text) {
+    if (!text || text->starts_with("ERROR")) {
         throw DebuggerError("PEEKTEXT err");
     }
 
@@ -37,7 +37,7 @@ std::vector<std::string> T86Process::ReadText(uint64_t address, size_t amount) {
 }
 
 void T86Process::WriteMemory(uint64_t address, const std::vector<int64_t>& data) {
-    if (address + data.size() > data_size) {
+    if (data.size() > data_size || address > data_size - data.size()) {
         throw DebuggerError(fmt::format("Writing memory at {}-{}, but size is {}",
                     address, address + data.size() - 1, data_size));
     }
@@ -48,13 +48,13 @@ void T86Process::WriteMemory(uint64_t address, const std::vector<int64_t>& data)
 }
 
 std::vector<int64_t> T86Process::ReadMemory(uint64_t address, size_t amount) {
-    if (address + amount > data_size) {
+    if (amount > data_size || address > data_size - amount) {
         throw DebuggerError(fmt::format("Reading memory at {}-{}, but size is {}",
                     address, address + amount - 1, data_size));
     }
     process->Send(fmt::format("PEEKDATA {} {}", address, amount));
     auto data = process->Receive();
-    if (!data) {
+    if (!data || data->starts_with("ERROR")) {
         throw DebuggerError("PEEKDATA err");
     }
 
diff --git a/src/debugger/T86Process.h b/src/debugger/T86Process.h
index e6172eb..0e05be5 100644
--- a/src/debugger/T86Process.h
+++ b/src/debugger/T86Process.h
@@ -91,6 +91,9 @@ private:
     template<typename T>
     std::map<std::string, T> FetchRegistersOfType() {
         auto regs = process->Receive();
+        if (!regs) {
+            throw DebuggerError("Unable to read registers");
+        }
         auto lines = utils::split_v(*regs, '\n');
         std::map<std::string, T> result;
         for (const auto& line: lines) {
-- 
2.43.0


From dd9e734e2da5449442bc3daae11d3febb728421f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:53 +0000
Subject: [PATCH 15/37] fix: a malformed or out of range debug request, or a
 lost client, ended the virtual machine

---
 src/common/helpers.h | 10 ++++--
 src/t86/cpu.h        |  2 ++
 src/t86/debug.cpp    | 80 +++++++++++++++++++++++++++++---------------
 src/t86/debug.h      | 17 ++++++++++
 4 files changed, 79 insertions(+), 30 deletions(-)

diff --git a/src/common/helpers.h b/src/common/helpers.h
index 8a9606b..06cf324 100644
--- a/src/common/helpers.h
+++ b/src/common/helpers.h
@@ -71,7 +71,7 @@ namespace utils {
     inline std::optional<int64_t> svtoi64(std::string_view s) {
         int64_t result;
         auto [ptr, ec] { std::from_chars(s.data(), s.data() + s.size(), result) };
-        if (ec == std::errc()) {
+        if (ec == std::errc() && ptr == s.data() + s.size()) {
             return result;
         }
         return std::nullopt;
@@ -83,7 +83,11 @@ namespace utils {
 #ifdef __clang__
         if constexpr (std::is_floating_point_v<T>) {
             try {
-                auto res = std::stod(std::string{s});
+                size_t end = 0;
+                auto res = std::stod(std::string{s}, &end);
+                if (end != s.size()) {
+                    return std::nullopt;
+                }
                 return res;
             } catch (...) {
                 return std::nullopt;
@@ -92,7 +96,7 @@ namespace utils {
 #endif
             T result;
             auto [ptr, ec] { std::from_chars(s.data(), s.data() + s.size(), result) };
-            if (ec == std::errc()) {
+            if (ec == std::errc() && ptr == s.data() + s.size()) {
                 return result;
             }
             return std::nullopt;
diff --git a/src/t86/cpu.h b/src/t86/cpu.h
index d7f053b..4c8b529 100644
--- a/src/t86/cpu.h
+++ b/src/t86/cpu.h
@@ -202,6 +202,8 @@ namespace tiny::t86 {
 
         void setMemory(uint64_t address, int64_t value);
 
+        size_t memorySize() const { return ram_.size(); }
+
         size_t textSize() const { return program_.instructions().size(); }
 
         const Instruction& getText(uint64_t address);
diff --git a/src/t86/debug.cpp b/src/t86/debug.cpp
index 92228ae..53daae1 100644
--- a/src/t86/debug.cpp
+++ b/src/t86/debug.cpp
@@ -21,6 +21,14 @@ namespace tiny::t86 {
         return static_cast<size_t>(*v);
     }
 
+    void Debug::CheckRange(size_t index, size_t count, size_t size) {
+        if (index > size || count > size - index) {
+            throw std::runtime_error(
+                    fmt::format("Range of {} from {} is out of bounds, the size is {}",
+                        count, index, size));
+        }
+    }
+
     Register Debug::TranslateToRegister(std::string_view s) {
         if (s == "IP") {
             return Register::ProgramCounter();
@@ -32,10 +40,9 @@ namespace tiny::t86 {
             return Register::Flags();
         } 
         auto idx = utils::svtonum<size_t>(s.substr(1));
-        if (!idx) {
+        if (s[0] != 'R' || !idx || *idx >= cpu.registersCount()) {
             throw std::runtime_error(
-                    fmt::format("TranslateToRegister failed, got '{}' as index",
-                        s.substr(1)));
+                    fmt::format("TranslateToRegister failed, got '{}'", s));
         }
         log_debug("Register index: {}",* idx);
         return Register(*idx);
@@ -43,10 +50,9 @@ namespace tiny::t86 {
 
     FloatRegister Debug::TranslateToFloatRegister(std::string_view s) {
         auto idx = utils::svtonum<size_t>(s.substr(1));
-        if (!idx) {
+        if (s[0] != 'F' || !idx || *idx >= cpu.floatRegistersCount()) {
             throw std::runtime_error(
-                    fmt::format("TranslateToRegister failed, got '{}' as index",
-                        s.substr(1)));
+                    fmt::format("TranslateToFloatRegister failed, got '{}'", s));
         }
         log_debug("Float register index: {}",* idx);
         return FloatRegister(*idx);
@@ -54,7 +60,7 @@ namespace tiny::t86 {
 
     size_t Debug::TranslateToDebugRegister(std::string_view s) {
         auto idx = utils::svtonum<size_t>(s.substr(1));
-        if (!idx) {
+        if (s[0] != 'D' || !idx || *idx >= Cpu::DEBUG_REGISTERS_CNT) {
             throw std::runtime_error(fmt::format("Wrong debug register,"
                        " expected D<index>, got '{}'", s));
         }
@@ -65,6 +71,7 @@ namespace tiny::t86 {
         std::istringstream is{std::string(s)};
         Parser parser(is);
         auto ins = parser.Instruction();
+        parser.CheckEnd();
         return ins;
     }
 
@@ -106,9 +113,27 @@ namespace tiny::t86 {
         // A requested single step ends with the next stop, whatever the reason
         // of that stop was.
         cpu.unsetTrapFlag();
-        log_info("Sending stop message to the debugger");
-        messenger->Send("STOPPED");
-        
+        try {
+            log_info("Sending stop message to the debugger");
+            messenger->Send("STOPPED");
+            while (true) {
+                try {
+                    return Serve(reason);
+                } catch (const TCP::TCPError&) {
+                    throw;
+                } catch (const std::exception& e) {
+                    // The request was malformed and changed nothing
+                    messenger->Send(fmt::format("ERROR: {}", e.what()));
+                }
+            }
+        } catch (const std::exception& e) {
+            // The debugger can't be reached anymore
+            log_error("Connection with debugger failed: {}", e.what());
+            return false;
+        }
+    }
+
+    bool Debug::Serve(BreakReason reason) {
         while (true) {
             log_info("Waiting for message from the debugger");
             auto message = messenger->Receive();
@@ -119,50 +144,51 @@ namespace tiny::t86 {
             }
             log_info("Received message '{}' from debugger", *message);
             auto commands = utils::split_v(*message, ' ');
-            auto command = commands[0];
+            auto command = commands.empty() ? std::string_view{} : commands[0];
             if (command == "REASON") {
                 std::string r = ReasonToString(reason);
                 messenger->Send(r);
             } else if (message == "CONTINUE") {
                 messenger->Send("OK");
                 break;
-            } else if (command.starts_with("PEEKTEXT")) {
+            } else if (command == "PEEKTEXT") {
                 auto index = svtoidx(commands.at(1));
                 auto count = svtoidx(commands.at(2));
+                CheckRange(index, count, cpu.textSize());
                 std::string result;
                 for (size_t i = index; i < index + count; ++i) {
                     result += cpu.getText(i).toString() + "\n";
                 }
                 messenger->Send(result);
-            } else if (command.starts_with("POKETEXT")) {
+            } else if (command == "POKETEXT") {
                 // We unfortunately broke the instruction into several parts,
                 // need to glue it back together
                 auto index = svtoidx(commands.at(1));
+                CheckRange(index, 1, cpu.textSize());
+                auto opcode = commands.at(2);
                 // Glue the operands together
                 auto insBegin = std::next(commands.begin(), 3);
                 // The commas are already included
                 auto operands = utils::join(insBegin, commands.end(), " ");
 
-                auto ins_s = std::string(commands.at(2)) + " " + operands;
+                auto ins_s = std::string(opcode) + " " + operands;
                 log_info("Setting instruction '{}' at address {}", ins_s, index);
                 auto ins = ParseInstruction(ins_s);
                 cpu.setText(index, std::move(ins));
                 messenger->Send("OK");
-            } else if (command.starts_with("PEEKDATA")) {
+            } else if (command == "PEEKDATA") {
                 auto index = svtoidx(commands.at(1));
                 auto count = svtoidx(commands.at(2));
+                CheckRange(index, count, cpu.memorySize());
                 std::string result;
                 for (size_t i = index; i < index + count; ++i) {
                     result += fmt::format("{}\n", cpu.getMemory(i)); 
                 }
                 messenger->Send(result);
-            } else if (command.starts_with("POKEDATA")) {
+            } else if (command == "POKEDATA") {
                 auto index = svtoidx(commands.at(1));
-                auto value = utils::svtoi64(commands.at(2));
-                if (!value) {
-                    throw std::runtime_error("Expected number as second arg");
-                }
-                cpu.setMemory(index, *value);
+                auto value = svtovalue<int64_t>(commands.at(2));
+                cpu.setMemory(index, value);
                 messenger->Send("OK");
             } else if (command == "PEEKREGS") {
                 auto regs = RegistersToString();
@@ -175,17 +201,17 @@ namespace tiny::t86 {
                 messenger->Send(regs);
             } else if (command == "POKEDEBUGREGS") {
                 auto reg = TranslateToDebugRegister(commands.at(1));
-                auto val = *utils::svtonum<uint64_t>(commands.at(2));
+                auto val = svtovalue<uint64_t>(commands.at(2));
                 cpu.setDebugRegister(reg, val);
                 messenger->Send("OK");
-            } else if (command.starts_with("POKEFLOATREGS")) {
+            } else if (command == "POKEFLOATREGS") {
                 auto reg = TranslateToFloatRegister(commands.at(1));
-                auto val = *utils::svtonum<double>(commands.at(2));
+                auto val = svtovalue<double>(commands.at(2));
                 cpu.setFloatRegisterDebug(reg, val);
                 messenger->Send("OK");
-            } else if (command.starts_with("POKEREGS")) {
+            } else if (command == "POKEREGS") {
                 auto reg = TranslateToRegister(commands.at(1));
-                auto val = *utils::svtonum<int64_t>(commands.at(2));
+                auto val = svtovalue<int64_t>(commands.at(2));
                 cpu.setRegisterDebug(reg, val);
                 messenger->Send("OK");
             } else if (command == "SINGLESTEP") {
@@ -199,7 +225,7 @@ namespace tiny::t86 {
                 messenger->Send(fmt::format("TEXTSIZE:{}", cpu.textSize()));
             } else if (command == "DATASIZE") {
                 messenger->Send(fmt::format("DATASIZE:{}",
-                                            Cpu::Config::instance().ramSize()));
+                                            cpu.memorySize()));
             } else if (command == "TERMINATE") {
                 messenger->Send("OK");
                 return false;
diff --git a/src/t86/debug.h b/src/t86/debug.h
index 774cf49..0257989 100644
--- a/src/t86/debug.h
+++ b/src/t86/debug.h
@@ -31,6 +31,19 @@ public:
 
     size_t svtoidx(std::string_view s);
 
+    /// Converts the argument of a request to number, throws if it isn't one.
+    template<typename T>
+    T svtovalue(std::string_view s) {
+        auto v = utils::svtonum<T>(s);
+        if (!v) {
+            throw std::runtime_error(fmt::format("Expected number, got '{}'", s));
+        }
+        return *v;
+    }
+
+    /// Throws if 'count' entries from 'index' aren't all below 'size'.
+    void CheckRange(size_t index, size_t count, size_t size);
+
     Register TranslateToRegister(std::string_view s);
 
     FloatRegister TranslateToFloatRegister(std::string_view s);
@@ -50,6 +63,10 @@ public:
     /// Should be called on any break situation.
     bool Work(BreakReason reason);
 private:
+    /// Answers requests until the client lets the execution go on
+    /// (returns true) or ends it (returns false).
+    bool Serve(BreakReason reason);
+
     Cpu& cpu;
     std::unique_ptr<Messenger> messenger;
 };
-- 
2.43.0


From d3b325db8e8fccf713566d5b49198503cf23cfcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:02:21 +0000
Subject: [PATCH 16/37] fix: the TCP link took partial, interrupted and failed
 transfers for whole messages and died or looped on a lost peer

---
 src/common/TCP.h | 66 ++++++++++++++++++++++++++++++++++--------------
 1 file changed, 47 insertions(+), 19 deletions(-)

diff --git a/src/common/TCP.h b/src/common/TCP.h
index b3960f4..d24a3a9 100644
--- a/src/common/TCP.h
+++ b/src/common/TCP.h
@@ -4,6 +4,7 @@
 
 #include <iostream>
 #include <vector>
+#include <cerrno>
 #include <cstdlib>
 #include <sys/socket.h>
 #include <unistd.h>
@@ -52,7 +53,15 @@ private:
 inline void SendRaw(int socket, const uint8_t* data, size_t size) {
     size_t sent = 0;
     while (sent < size) {
-        sent += send(socket, &data[sent], size - sent, 0);
+        // The peer may already be gone, which has to be an error and not a signal
+        ssize_t err = send(socket, &data[sent], size - sent, MSG_NOSIGNAL);
+        if (err < 0) {
+            if (errno == EINTR) {
+                continue;
+            }
+            throw TCPError("Sending failed");
+        }
+        sent += err;
     }
 }
 
@@ -66,27 +75,35 @@ inline void Send(int socket, const std::string& s) {
     SendRaw(socket, reinterpret_cast<const uint8_t*>(s.c_str()), s.length());
 }
 
-inline std::optional<std::string> Receive(int socket) {
-    // The messages are in form 8b | data
-    size_t size = 0;
-    int err = read(socket, &size, sizeof(size_t));
-    if (err < 0) {
-        throw TCPError("Reading failed");
-    } if (err == 0) {
-        return std::nullopt;
-    }
-
+/// Reads exactly 'size' bytes, returns false if the stream ends before that.
+inline bool ReceiveRaw(int socket, uint8_t* data, size_t size) {
     size_t received = 0;
-    std::vector<uint8_t> data(size);
     while (received < size) {
-        int err = read(socket, data.data() + received, size - received);
+        ssize_t err = read(socket, data + received, size - received);
         if (err < 0) {
+            if (errno == EINTR) {
+                continue;
+            }
             throw TCPError("Reading failed");
         } else if (err == 0) {
-            return std::nullopt;
+            return false;
         }
         received += err;
     }
+    return true;
+}
+
+inline std::optional<std::string> Receive(int socket) {
+    // The messages are in form 8b | data
+    size_t size = 0;
+    if (!ReceiveRaw(socket, reinterpret_cast<uint8_t*>(&size), sizeof(size_t))) {
+        return std::nullopt;
+    }
+
+    std::vector<uint8_t> data(size);
+    if (!ReceiveRaw(socket, data.data(), size)) {
+        return std::nullopt;
+    }
     // Unecessary copy, but since the messages will be very small we frankly
     // dont care
     std::string result(data.begin(), data.end());
@@ -121,7 +138,7 @@ public:
 protected:
     bool initialized = false;
     int port;
-    int sock;
+    int sock = -1;
 };
 
 class TCPClient : public TCP<TCPClient> {
@@ -150,7 +167,9 @@ public:
     }
 
     ~TCPClient() {
-        close(sock);
+        if (sock >= 0) {
+            close(sock);
+        }
     }
 };
 
@@ -194,16 +213,25 @@ public:
         }
 
         int addrlen = sizeof(address);
-        sock = accept(server_fd, (sockaddr*)&address, (socklen_t*)&addrlen);
+        do {
+            sock = accept(server_fd, (sockaddr*)&address, (socklen_t*)&addrlen);
+        } while (sock < 0 && errno == EINTR);
+        if (sock < 0) {
+            throw TCPError("Couldn't accept the connection");
+        }
     }
 
     ~TCPServer() {
-        if (initialized) {
+        if (sock >= 0) {
+            close(sock);
+        }
+        if (server_fd >= 0) {
             shutdown(server_fd, SHUT_RDWR);
+            close(server_fd);
         }
     }
 protected:
-    int server_fd;
+    int server_fd = -1;
 };
 
 }
-- 
2.43.0


From bfc74baaaff08364850f3c4f1dfe73b713340be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:37 +0000
Subject: [PATCH 17/37] fix: a failed run or attach command, or a lost attached
 machine, ended the debugger or left it with a terminated process

---
 src/dbg-cli/CLI.h | 54 +++++++++++++++++++++++++++++++++++------------
 1 file changed, 40 insertions(+), 14 deletions(-)

diff --git a/src/dbg-cli/CLI.h b/src/dbg-cli/CLI.h
index 9c2ced0..dcf4a85 100644
--- a/src/dbg-cli/CLI.h
+++ b/src/dbg-cli/CLI.h
@@ -992,14 +992,10 @@ Most often, the correct address will be one below it.)";
         if (main_command == "") {
             fmt::print("{}", USAGE);
         } else if (utils::is_prefix_of(main_command, "run")) {
-            ExitProcess();
             HandleRun(command);
             return;
         } else if (utils::is_prefix_of(main_command, "attach")) {
-            ExitProcess();
             Attach(command);
-            is_running = true;
-            process.WaitForDebugEvent();
             return;
         } else if (utils::is_prefix_of(main_command, "help")) {
             HandleHelp(command);
@@ -1058,6 +1054,8 @@ Most often, the correct address will be one below it.)";
             return;
         }
         auto [source, program] = ParseProgram(std::string{*fname});
+        // Only now, so that a failure above leaves the current process as it is.
+        ExitProcess();
 
         size_t reg_count = 8;
         auto v = ParseOptionalCommand<size_t>(subcommands, "--reg-count=");
@@ -1108,7 +1106,13 @@ Most often, the correct address will be one below it.)";
     // Cleanly exits the underlying VM if running.
     void ExitProcess() {
         if (process.Active()) {
-            process.Terminate();
+            try {
+                process.Terminate();
+            } catch (const DebuggerError& err) {
+                log_info("Process is already gone: {}", err.what());
+            } catch (const TCP::TCPError& err) {
+                log_info("Process is already gone: {}", err.what());
+            }
             if (t86vm.joinable()) {
                 t86vm.join();
             }
@@ -1134,6 +1138,8 @@ Most often, the correct address will be one below it.)";
                 HandleCommand(line);
             } catch (const DebuggerError& err) {
                 fmt::print("Error: {}\n", err.what());
+            } catch (const TCP::TCPError& err) {
+                fmt::print("Error: {}\n", err.what());
             }
 FREE_LINE:
             free(line_raw);
@@ -1169,29 +1175,44 @@ private:
     void Attach(std::string_view command) {
         auto subcommands = utils::split_v(command);
         if (subcommands.size() < 1) {
-            fmt::print("A port is needed, use `attach <port>`");
+            fmt::print("A port is needed, use `attach <port>`\n");
             return;
         }
         auto port_o = utils::svtonum<int>(subcommands.at(0));
         if (!port_o) {
-            fmt::print("Expected port, got '{}'", *port_o);
+            Error("Expected port, got '{}'", subcommands.at(0));
         }
-        auto debuggee = Native::Initialize(*port_o);
-        process = Native(std::move(debuggee));
+        Source new_source;
         if (fname) {
             std::ifstream file(*fname);
             if (!file) {
                 Error("Unable to open file '{}'\n", *fname);
             }
-            source = ParseDebugInfo(file);
+            new_source = ParseDebugInfo(file);
+        }
+        std::unique_ptr<Process> debuggee;
+        try {
+            debuggee = Native::Initialize(*port_o);
+        } catch (const TCP::TCPError& err) {
+            Error("Unable to attach: {}", err.what());
         }
+        ExitProcess();
+        process = Native(std::move(debuggee));
+        source = std::move(new_source);
+        is_running = true;
+        process.WaitForDebugEvent();
     }
 
     Source ParseDebugInfo(std::ifstream& file) {
         Source source;
         if (file) {
-            dbg::Parser p(file);
-            auto debug_info = p.Parse();
+            dbg::DebuggingInfo debug_info;
+            try {
+                dbg::Parser p(file);
+                debug_info = p.Parse();
+            } catch (const ParserError& err) {
+                Error("Unable to parse debugging information: {}", err.what());
+            }
             if (debug_info.line_mapping) {
                 log_info("Found line mapping in debug info");
                 source.RegisterLineMapping(std::move(*debug_info.line_mapping));
@@ -1213,8 +1234,13 @@ private:
         if (!file) {
             Error("Unable to open file '{}'\n", *fname);
         }
-        Parser parser(file);
-        auto program = parser.Parse();
+        tiny::t86::Program program;
+        try {
+            Parser parser(file);
+            program = parser.Parse();
+        } catch (const ParserError& err) {
+            Error("Unable to parse program: {}", err.what());
+        }
         // Parse debug info
         file.clear();
         file.seekg(0);
-- 
2.43.0


From 32a99febb2bdfb0b4105ad11d625fc2dc7fc1c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:37 +0000
Subject: [PATCH 18/37] fix: mistyped arguments and breakpoints on functions
 without lines used missing values, printing past the source took for ever

---
 src/dbg-cli/CLI.h | 58 +++++++++++++++++------------------------------
 1 file changed, 21 insertions(+), 37 deletions(-)

diff --git a/src/dbg-cli/CLI.h b/src/dbg-cli/CLI.h
index dcf4a85..a56f4dc 100644
--- a/src/dbg-cli/CLI.h
+++ b/src/dbg-cli/CLI.h
@@ -348,7 +348,7 @@ public:
         for (size_t i = from; i < to; ++i) {
             auto line = source.GetLine(i);
             if (!line) {
-                continue;
+                break;
             }
             std::string pretty_rest;
             if (curr_loc && i == *curr_loc) {
@@ -453,6 +453,18 @@ Most often, the correct address will be one below it.)";
         }
     }
 
+    /// Describes the line at given address, or the address itself if it
+    /// isn't a beginning of any line (ie. a function without line mapping).
+    std::string DescribeLocation(uint64_t addr) {
+        auto line = source.AddrToLine(addr);
+        if (!line) {
+            return fmt::format("address {}", addr);
+        }
+        auto source_line = source.GetLine(*line);
+        return fmt::format("line {} (addr {}){}", *line + 1, addr,
+                source_line ? fmt::format(": {}", *source_line) : "");
+    }
+
     void HandleBreakpoint(std::string_view command) {
         // TODO: Lot of repeated code
         if (!process.Active()) {
@@ -469,50 +481,19 @@ Most often, the correct address will be one below it.)";
         } else if (check_command(subcommands, "set", 2)) {
             uint64_t addr = source.GetAddressFromString(subcommands.at(1), true);
             process.SetBreakpoint(addr);
-            auto line = source.AddrToLine(addr);
-            auto source_line = source.GetLine(*line);
-            fmt::print("Breakpoint set on line {} (addr {})", *line + 1, addr);
-            if (source_line) {
-                fmt::print(": {}\n", *source_line);
-            } else {
-                fmt::print("\n");
-            }
+            fmt::print("Breakpoint set on {}\n", DescribeLocation(addr));
         } else if (check_command(subcommands, "remove", 2)) {
             uint64_t addr = source.GetAddressFromString(subcommands.at(1), true);
             process.UnsetBreakpoint(addr);
-            auto line = source.AddrToLine(addr);
-            assert(line);
-            auto source_line = source.GetLine(*line);
-            fmt::print("Breakpoint removed from line {} (addr {})", *line + 1, addr);
-            if (source_line) {
-                fmt::print(": {}\n", *source_line);
-            } else {
-                fmt::print("\n");
-            }
+            fmt::print("Breakpoint removed from {}\n", DescribeLocation(addr));
         } else if (check_command(subcommands, "enable", 2)) {
             uint64_t addr = source.GetAddressFromString(subcommands.at(1), true);
             process.EnableSoftwareBreakpoint(addr);
-            auto line = source.AddrToLine(addr);
-            assert(line);
-            auto source_line = source.GetLine(*line);
-            fmt::print("Breakpoint enabled on line {} (addr {})", *line + 1, addr);
-            if (source_line) {
-                fmt::print(": {}\n", *source_line);
-            } else {
-                fmt::print("\n");
-            }
+            fmt::print("Breakpoint enabled on {}\n", DescribeLocation(addr));
         } else if (check_command(subcommands, "disable", 2)) {
             uint64_t addr = source.GetAddressFromString(subcommands.at(1), true);
             process.DisableSoftwareBreakpoint(addr);
-            auto line = source.AddrToLine(addr);
-            assert(line);
-            auto source_line = source.GetLine(*line);
-            fmt::print("Breakpoint disabled on line {} (addr {})", *line + 1, addr);
-            if (source_line) {
-                fmt::print(": {}\n", *source_line);
-            } else {
-                fmt::print("\n");
-            }
+            fmt::print("Breakpoint disabled on {}\n", DescribeLocation(addr));
         } else if (check_command(subcommands, "idisable", 2)) {
             auto address = ParseAddress(subcommands.at(1));
             process.DisableSoftwareBreakpoint(address);
@@ -798,7 +779,7 @@ Most often, the correct address will be one below it.)";
         if (check_command(subcommands, "interactive", 2)) {
             auto addr = utils::svtonum<size_t>(subcommands.at(1));
             if (!addr) {
-                Error("Expected address, got '{}'", subcommands.at(2));
+                Error("Expected address, got '{}'", subcommands.at(1));
             }
             InteractiveAssemble(*addr);
         } else {
@@ -850,6 +831,9 @@ Most often, the correct address will be one below it.)";
         auto subcommands = utils::split_v(command);
         if (check_command(subcommands, "set", 3)) {
             auto cell = utils::svtonum<size_t>(subcommands.at(1));
+            if (!cell) {
+                Error("Expected memory cell, got '{}'", subcommands.at(1));
+            }
             std::vector<int64_t> values;
             std::transform(std::next(subcommands.begin(), 2), subcommands.end(), 
                     std::back_inserter(values), [&](auto&& s) { 
-- 
2.43.0


From 27db5e5184879e7a4125ba3ee4e53860fc1a5fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:45 +0000
Subject: [PATCH 19/37] fix: a BKPT of the program itself is executed once and
 not returned to

The instruction pointer was moved back for every BKPT, so that a program
containing one could never be continued past it, and twice if a breakpoint
was set on it, which executed the instruction before it again.
---
 src/debugger/Native.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/debugger/Native.cpp b/src/debugger/Native.cpp
index 4675543..3fa2af6 100644
--- a/src/debugger/Native.cpp
+++ b/src/debugger/Native.cpp
@@ -344,12 +344,14 @@ DebugEvent Native::WaitForDebugEvent() {
     } else {
         process->Wait();
         reason = MapReasonToEvent(process->GetReason());
-    }
-
-    if (std::holds_alternative<BreakpointHit>(reason)) {
-        auto regs = GetRegisters();
-        regs.at("IP") -= 1;
-        SetRegisters(regs);
+        // Return to the instruction which our breakpoint replaces. If the opcode
+        // belongs to the program itself then it has just been executed.
+        if (auto hit = std::get_if<BreakpointHit>(&reason)) {
+            auto bp = software_breakpoints.find(hit->address);
+            if (bp != software_breakpoints.end() && bp->second.enabled) {
+                SetRegister(Arch::GetIPRegister(), hit->address);
+            }
+        }
     }
     return reason;
 }
-- 
2.43.0


From dd2f2cd50cf24c633dd85fbc1ef620e79ed17ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:53 +0000
Subject: [PATCH 20/37] fix: a lost process leaves the temporary breakpoint of
 a step over, or drops the breakpoint being stepped over

---
 src/debugger/Native.cpp | 31 +++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/src/debugger/Native.cpp b/src/debugger/Native.cpp
index 3fa2af6..bdfe24b 100644
--- a/src/debugger/Native.cpp
+++ b/src/debugger/Native.cpp
@@ -1,5 +1,22 @@
 #include "Native.h"
 
+#include <functional>
+
+namespace {
+/// Does given action if the scope is left by an exception,
+/// that is before 'done' is set.
+struct OnFailure {
+    std::function<void()> action;
+    bool done = false;
+
+    ~OnFailure() {
+        if (!done) {
+            action();
+        }
+    }
+};
+}
+
 std::unique_ptr<Process> Native::Initialize(int port) {
     auto tcp = std::make_unique<TCP::TCPClient>(port);
     tcp->Initialize();
@@ -148,6 +165,15 @@ DebugEvent Native::PerformStepOver(bool skip_bp) {
         } else if (!bp_enabled) {
             EnableSoftwareBreakpoint(ip + 1);
         }
+        // If the process is lost our breakpoint must not stay
+        // among those that are put into the next one.
+        OnFailure restore{[&] {
+            if (!bp_exists) {
+                software_breakpoints.erase(ip + 1);
+            } else if (!bp_enabled) {
+                software_breakpoints.at(ip + 1).enabled = false;
+            }
+        }};
         // There is a problem with recursive functions. They can hit the breakpoint
         // also. We do this bold heuristic where we check if the BP is the same,
         // because functions with some normal calling convention have to backup
@@ -176,6 +202,7 @@ DebugEvent Native::PerformStepOver(bool skip_bp) {
         } else if (!bp_enabled) {
             DisableSoftwareBreakpoint(ip + 1);
         }
+        restore.done = true;
         if (returned) {
             return Singlestep{};
         }
@@ -477,10 +504,14 @@ SoftwareBreakpoint Native::CreateSoftwareBreakpoint(uint64_t address) {
 
 DebugEvent Native::StepOverBreakpoint(size_t ip) {
     DisableSoftwareBreakpoint(ip);
+    // If the process is lost the breakpoint must still be put
+    // into the next one.
+    OnFailure restore{[&] { software_breakpoints.at(ip).enabled = true; }};
     // Even though PerformSingleStep calls this function
     // it does not matter because we turn off the breakpoint
     // on the line above.
     auto event = PerformSingleStep();
     EnableSoftwareBreakpoint(ip); 
+    restore.done = true;
     return event;
 }
-- 
2.43.0


From 5ca03717df7c1ec66d2ff75428cb3ac86defda70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:01 +0000
Subject: [PATCH 21/37] fix: attaching to a machine with other than the default
 register counts and memory size

---
 src/debugger/Native.cpp     |  6 +++++-
 src/debugger/T86Process.cpp | 14 ++++++++++++++
 src/debugger/T86Process.h   |  9 +++++++--
 3 files changed, 26 insertions(+), 3 deletions(-)

diff --git a/src/debugger/Native.cpp b/src/debugger/Native.cpp
index bdfe24b..a192197 100644
--- a/src/debugger/Native.cpp
+++ b/src/debugger/Native.cpp
@@ -1,6 +1,7 @@
 #include "Native.h"
 
 #include <functional>
+#include <limits>
 
 namespace {
 /// Does given action if the scope is left by an exception,
@@ -21,7 +22,10 @@ std::unique_ptr<Process> Native::Initialize(int port) {
     auto tcp = std::make_unique<TCP::TCPClient>(port);
     tcp->Initialize();
     if (Arch::GetMachine() == Arch::Machine::T86) {
-        return std::make_unique<T86Process>(std::move(tcp));
+        // We don't know with what parameters was the VM started.
+        // It checks the registers itself.
+        auto any = std::numeric_limits<size_t>::max();
+        return std::make_unique<T86Process>(std::move(tcp), any, any, std::nullopt);
     } else {
         throw std::runtime_error("Specified machine is not supported");
     }
diff --git a/src/debugger/T86Process.cpp b/src/debugger/T86Process.cpp
index 6d22d54..28fc080 100644
--- a/src/debugger/T86Process.cpp
+++ b/src/debugger/T86Process.cpp
@@ -37,6 +37,7 @@ std::vector<std::string> T86Process::ReadText(uint64_t address, size_t amount) {
 }
 
 void T86Process::WriteMemory(uint64_t address, const std::vector<int64_t>& data) {
+    auto data_size = DataSize();
     if (data.size() > data_size || address > data_size - data.size()) {
         throw DebuggerError(fmt::format("Writing memory at {}-{}, but size is {}",
                     address, address + data.size() - 1, data_size));
@@ -48,6 +49,7 @@ void T86Process::WriteMemory(uint64_t address, const std::vector<int64_t>& data)
 }
 
 std::vector<int64_t> T86Process::ReadMemory(uint64_t address, size_t amount) {
+    auto data_size = DataSize();
     if (amount > data_size || address > data_size - amount) {
         throw DebuggerError(fmt::format("Reading memory at {}-{}, but size is {}",
                     address, address + amount - 1, data_size));
@@ -152,6 +154,18 @@ size_t T86Process::TextSize() {
     return result;
 }
 
+size_t T86Process::DataSize() {
+    if (!data_size) {
+        process->Send("DATASIZE");
+        auto response = process->Receive();
+        if (!response) {
+            throw DebuggerError("DATASIZE error");
+        }
+        data_size = std::stoull(response->c_str() + strlen("DATASIZE:"));
+    }
+    return *data_size;
+}
+
 void T86Process::ResumeExecution() {
     process->Send("CONTINUE");
     CheckResponse("CONTINUE fail");
diff --git a/src/debugger/T86Process.h b/src/debugger/T86Process.h
index 0e05be5..dd7178a 100644
--- a/src/debugger/T86Process.h
+++ b/src/debugger/T86Process.h
@@ -3,6 +3,7 @@
 #include <vector>
 #include <memory>
 #include <functional>
+#include <optional>
 
 #include "common/messenger.h"
 #include "common/logger.h"
@@ -15,8 +16,9 @@
 
 class T86Process: public Process {
 public:
+    /// If the 'data_size' is not known then the VM is asked for it.
     T86Process(std::unique_ptr<Messenger> process, size_t gp_reg_cnt = 10,
-               size_t float_reg_cnt = 4, size_t data_size = 1024)
+               size_t float_reg_cnt = 4, std::optional<size_t> data_size = 1024)
                     : process(std::move(process)),
                       data_size(data_size),
                       gen_purpose_regs_count(gp_reg_cnt),
@@ -106,6 +108,9 @@ private:
 
     int64_t GetRegister(std::string_view name);
 
+    /// Returns the size of the memory.
+    size_t DataSize();
+
     bool isGPRegister(std::string_view name) const;
 
     bool IsValidRegisterName(std::string_view name) const;
@@ -117,7 +122,7 @@ private:
     void CheckResponse(std::string_view error_message);
 
     std::unique_ptr<Messenger> process;
-    const size_t data_size{1024};
+    std::optional<size_t> data_size{1024};
     const size_t gen_purpose_regs_count{8};
     const size_t float_regs_count{4};
     const size_t debug_register_cnt{5};
-- 
2.43.0


From 7ef3ee0ee995fc05f4828bf66f669f5662045c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:32 +0000
Subject: [PATCH 22/37] fix: expressions with <=, >= or anything else after a
 complete expression were cut short, and one with a bad first token ended the
 debugger

---
 src/debugger/Source/ExpressionParser.cpp | 4 +++-
 src/debugger/Source/ExpressionParser.h   | 6 +++++-
 src/debugger/Source/Source.cpp           | 2 +-
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/debugger/Source/ExpressionParser.cpp b/src/debugger/Source/ExpressionParser.cpp
index 7407878..b9c83af 100644
--- a/src/debugger/Source/ExpressionParser.cpp
+++ b/src/debugger/Source/ExpressionParser.cpp
@@ -76,7 +76,9 @@ std::unique_ptr<Expression> ExpressionParser::logical() {
 std::unique_ptr<Expression> ExpressionParser::comparison() {
     std::unique_ptr<Expression> result = shifts();
     while (curtok.kind == TokenKind::LESS
-            || curtok.kind == TokenKind::GREATER) {
+            || curtok.kind == TokenKind::GREATER
+            || curtok.kind == TokenKind::LEQ
+            || curtok.kind == TokenKind::GEQ) {
         auto kind = curtok.kind;
         GetNext();
         auto next = shifts();
diff --git a/src/debugger/Source/ExpressionParser.h b/src/debugger/Source/ExpressionParser.h
index 8a7e9b1..bbace87 100644
--- a/src/debugger/Source/ExpressionParser.h
+++ b/src/debugger/Source/ExpressionParser.h
@@ -27,7 +27,11 @@ class ExpressionParser {
 public:
     ExpressionParser(std::istream& is): lex(is) { GetNext(); }
     std::unique_ptr<Expression> ParseExpression() {
-        return expr();
+        auto result = expr();
+        if (curtok.kind != TokenKind::END) {
+            throw CreateError("Unexpected input after the expression");
+        }
+        return result;
     }
 private:
     template<typename ...Args>
diff --git a/src/debugger/Source/Source.cpp b/src/debugger/Source/Source.cpp
index f57a198..7d3ef13 100644
--- a/src/debugger/Source/Source.cpp
+++ b/src/debugger/Source/Source.cpp
@@ -342,9 +342,9 @@ std::map<std::string, const DIE*> Source::GetActiveVariables(uint64_t address) c
 std::pair<TypedValue, size_t>
 Source::EvaluateExpression(Native& native, std::string expression, bool cache) {
     std::istringstream iss(std::move(expression));
-    ExpressionParser parser(iss);
     std::unique_ptr<Expression> e; 
     try {
+        ExpressionParser parser(iss);
         e = parser.ParseExpression();
     } catch (const ParserError& err) {
         throw DebuggerError(fmt::format("Unable to parse expression: {}", err.what()));
-- 
2.43.0


From bb40ca5ecf58aec3210aae85a202d37d2d39a2bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:32 +0000
Subject: [PATCH 23/37] fix: floats were assigned with another value, pointer
 differences were not in elements, and bad indices, divisions and array
 assignments ended the debugger

---
 src/debugger/Source/Expression.cpp | 40 +++++++++++++++++++++---------
 1 file changed, 28 insertions(+), 12 deletions(-)

diff --git a/src/debugger/Source/Expression.cpp b/src/debugger/Source/Expression.cpp
index 8b329f2..a02cf42 100644
--- a/src/debugger/Source/Expression.cpp
+++ b/src/debugger/Source/Expression.cpp
@@ -1,5 +1,6 @@
 #include <variant>
 #include <functional>
+#include <limits>
 #include "Expression.h"
 #include "Source.h"
 #include "debugger/Source/ExpressionInterpreter.h"
@@ -161,11 +162,15 @@ TypedValue ExpressionEvaluator::SubValues(TypedValue&& left, TypedValue&& right)
             auto item_size = source.GetTypeSize(left.type.type_id);
             return PointerValue{left.type, left.value - right.value * item_size};
         },
-        [](PointerValue&& left, PointerValue&& right) -> TypedValue {
+        [this](PointerValue&& left, PointerValue&& right) -> TypedValue {
             if (left.type.type_id != right.type.type_id) {
                 throw DebuggerError("Only pointers to the same type can be substracted");
             }
-            return IntegerValue{static_cast<int64_t>(left.value - right.value)};
+            auto item_size = static_cast<int64_t>(source.GetTypeSize(left.type.type_id));
+            if (item_size == 0) {
+                throw DebuggerError("Pointers to a type without size can't be substracted");
+            }
+            return IntegerValue{static_cast<int64_t>(left.value - right.value) / item_size};
         },
         [](auto&&, auto&&) -> TypedValue {
             throw DebuggerError("Unsupported types for operator '-'");
@@ -241,8 +246,8 @@ void ExpressionEvaluator::Visit(const ArrayAccess& id) {
         if (idx == nullptr) {
             throw DebuggerError("Can only indexate with integers");
         }
-        if (idx->value >= static_cast<int64_t>(av->members.size())) {
-            throw DebuggerError(fmt::format("Out of bounds access: {} >= {}", idx->value, av->members.size()));
+        if (idx->value < 0 || idx->value >= static_cast<int64_t>(av->members.size())) {
+            throw DebuggerError(fmt::format("Out of bounds access: {} is not in an array of {}", idx->value, av->members.size()));
         }
         visitor_value = av->members[idx->value];
     } else {
@@ -267,6 +272,19 @@ bool CheckZero(const TypedValue& val) {
     }, val);
 }
 
+/// Throws if the right can't be used as a divisor of left.
+void CheckDivisor(const TypedValue& left, const TypedValue& right) {
+    if (!CheckZero(right)) {
+        throw DebuggerError("Can't divide by zero");
+    }
+    auto dividend = std::get_if<IntegerValue>(&left);
+    auto divisor = std::get_if<IntegerValue>(&right);
+    if (dividend && divisor && divisor->value == -1
+            && dividend->value == std::numeric_limits<int64_t>::min()) {
+        throw DebuggerError("The quotient is not representable");
+    }
+}
+
 template<typename UnaryOp>
 TypedValue EvaluateUnary(const TypedValue& val, UnaryOp&& op) {
     return std::visit(utils::overloaded{
@@ -322,7 +340,7 @@ TypedValue ExpressionEvaluator::Assignment(TypedValue&& left, TypedValue&& right
             return std::move(left);
         },
         [&](FloatValue&& left, FloatValue&& right) -> TypedValue {
-            SetRaw(native, left.loc.value(), right.value);
+            SetRaw(native, left.loc.value(), utils::reinterpret_safe<uint64_t>(right.value));
             left.value = right.value;
             return std::move(left);
         },
@@ -343,7 +361,9 @@ TypedValue ExpressionEvaluator::Assignment(TypedValue&& left, TypedValue&& right
             if (left.type.type_id != right.type.type_id) {
                 throw DebuggerError("Incopatible pointer types");
             }
-            assert(left.members.size() == right.members.size());
+            if (left.members.size() != right.members.size()) {
+                throw DebuggerError("Incompatible array sizes for assignment");
+            }
             for (size_t i = 0; i < left.members.size(); ++ i) {
                 left.members.at(i) = Assignment(std::move(left.members.at(i)),
                                                 std::move(right.members.at(i)));
@@ -388,16 +408,12 @@ void ExpressionEvaluator::Visit(const BinaryOperator& plus) {
                                      std::multiplies{},
                                      std::move(right));
     break; case BinaryOperator::Op::Div: 
-        if (!CheckZero(right)) {
-            throw DebuggerError("Can't divide by zero");
-        }
+        CheckDivisor(left, right);
         visitor_value = ArithmeticOp(std::move(left),
                                      std::divides{},
                                      std::move(right));
     break; case BinaryOperator::Op::Mod: 
-        if (!CheckZero(right)) {
-            throw DebuggerError("Can't divide by zero");
-        }
+        CheckDivisor(left, right);
         visitor_value = BitValues(std::move(left),
                                   std::modulus{},
                                   std::move(right));
-- 
2.43.0


From 91279bcc039955453d828cd5b2f6fe99eba5f6ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:43 +0000
Subject: [PATCH 24/37] fix: DEREFERENCE in a location read one cell too far
 and left its operand, and missing operands were taken from an empty stack

---
 src/debugger/Source/ExpressionInterpreter.cpp | 20 ++++++++++++-------
 src/debugger/Source/ExpressionInterpreter.h   |  2 ++
 2 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/debugger/Source/ExpressionInterpreter.cpp b/src/debugger/Source/ExpressionInterpreter.cpp
index b42ed87..983fb9b 100644
--- a/src/debugger/Source/ExpressionInterpreter.cpp
+++ b/src/debugger/Source/ExpressionInterpreter.cpp
@@ -47,6 +47,15 @@ expr::Location ExpressionInterpreter::AddOperands(const expr::Location& o1,
     }, o1);
 }
 
+expr::Location ExpressionInterpreter::Pop() {
+    if (s.empty()) {
+        throw DebuggerError("Missing operand in location expression.");
+    }
+    auto v = s.top();
+    s.pop();
+    return v;
+}
+
 void ExpressionInterpreter::Interpret() {
     for (const auto& ins: exprs) {
         std::visit(utils::overloaded {
@@ -54,10 +63,8 @@ void ExpressionInterpreter::Interpret() {
                 s.push(ins.value);
             },
             [&](const expr::Add& ins) {
-                auto v1 = s.top();
-                s.pop();
-                auto v2 = s.top();
-                s.pop();
+                auto v1 = Pop();
+                auto v2 = Pop();
                 auto res = AddOperands(v1, v2);
                 s.push(std::move(res));
             },
@@ -67,15 +74,14 @@ void ExpressionInterpreter::Interpret() {
                 s.push(expr::Offset{loc});
             },
             [&](const expr::Dereference& ins) {
-                auto v1 = s.top();
+                auto v1 = Pop();
                 auto v = std::visit(utils::overloaded {
                         [&](const expr::Register& reg) {
                             auto idx = native.GetRegister(reg.name);
                             return native.ReadMemory(idx, 1)[0];
                         },
                         [&](const expr::Offset& offset) {
-                            auto idx = native.ReadMemory(offset.value, 1)[0];
-                            return native.ReadMemory(idx, 1)[0];
+                            return native.ReadMemory(offset.value, 1)[0];
                         }
                 }, v1);
                 s.push(expr::Offset{v});
diff --git a/src/debugger/Source/ExpressionInterpreter.h b/src/debugger/Source/ExpressionInterpreter.h
index ac2c139..220eaa5 100644
--- a/src/debugger/Source/ExpressionInterpreter.h
+++ b/src/debugger/Source/ExpressionInterpreter.h
@@ -35,6 +35,8 @@ private:
                 exprs(exprs), native(native),
                 frame_base_reg_name(std::move(frame_base_reg_name)) { }
 
+    /// Pops a value off the stack, throws if there is none.
+    expr::Location Pop();
     expr::Location AddOperands(const expr::Location& o1,
                               const expr::Location& o2) const;
 
-- 
2.43.0


From 5e5280dd01e38fca982555a8d6f7031585074112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:44 +0000
Subject: [PATCH 25/37] fix: a variable declared after a subscope hid that
 scope's variable of the same name, and an incomplete structured type ended
 the debugger

---
 src/debugger/Source/Source.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/debugger/Source/Source.cpp b/src/debugger/Source/Source.cpp
index 7d3ef13..384a1c9 100644
--- a/src/debugger/Source/Source.cpp
+++ b/src/debugger/Source/Source.cpp
@@ -222,6 +222,10 @@ void Source::ReconstructTypeInformation() {
             auto name = FindDieAttribute<ATTR_name>(die);
             auto size = FindDieAttribute<ATTR_size>(die);
             auto members = FindDieAttribute<ATTR_members>(die);
+            if (!name || !size || !members) {
+                log_error("DIE structured_type: Missing name, size or members");
+                continue;
+            }
             std::vector<StructuredMember> members_vec;
             std::transform(members->m.begin(), members->m.end(),
                     std::back_inserter(members_vec),
@@ -326,8 +330,16 @@ void FindVariables(uint64_t address, const DIE& die, std::map<std::string, const
             return;
         }
     }
+    // The subscopes come last, their variables hide those of this scope.
+    for (const auto& d: die) {
+        if (d.get_tag() == DIE::TAG::variable) {
+            FindVariables(address, d, result);
+        }
+    }
     for (const auto& d: die) {
-        FindVariables(address, d, result);
+        if (d.get_tag() != DIE::TAG::variable) {
+            FindVariables(address, d, result);
+        }
     }
 }
 
-- 
2.43.0


From 915cb887a421beb18c5d57fc6104e95e42189201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:07 +0000
Subject: [PATCH 26/37] fix: the breakpoint list numbered source lines from
 zero, disassembling a range left out its last instruction, and help named a
 command that does not exist

---
 src/dbg-cli/CLI.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/dbg-cli/CLI.h b/src/dbg-cli/CLI.h
index a56f4dc..13891a8 100644
--- a/src/dbg-cli/CLI.h
+++ b/src/dbg-cli/CLI.h
@@ -87,7 +87,7 @@ breakpoint on instruction at address 1.
 The <loc> can either be a function name or a source line.
 
 - set <loc> = Creates breakpoint at <loc> and enables it.
-- unset <loc> = Removes breakpoint at <loc>.
+- remove <loc> = Removes breakpoint at <loc>.
 - enable <loc> = Enables breakpoint at <loc>.
 - disable <loc> = Disables breakpoint at <loc>.
 - list = Lists existing breakpoints.
@@ -511,7 +511,7 @@ Most often, the correct address will be one below it.)";
             for (auto&& [addr, b]: bps) {
                 auto line = source.AddrToLine(addr);
                 fmt::print("addr: {}{}; {}", addr,
-                        line ? fmt::format(", line: {}", *line) : "",
+                        line ? fmt::format(", line: {}", *line + 1) : "",
                         b.enabled ? "enabled" : "disabled");
                 auto fun = source.GetFunctionNameByAddress(addr);
                 if (fun) {
@@ -691,7 +691,10 @@ Most often, the correct address will be one below it.)";
         } else if (check_command(subcommands, "range", 3)) {
             auto begin = ParseAddress(subcommands.at(1));
             auto end = ParseAddress(subcommands.at(2));
-            auto text = process.ReadText(begin, end - begin);
+            if (end < begin) {
+                Error("The range ends before it begins");
+            }
+            auto text = process.ReadText(begin, end - begin + 1);
             PrintText(begin, text);
         } else if (check_command(subcommands, "from", 2)) {
             auto begin = ParseAddress(subcommands.at(1));
-- 
2.43.0


From f9108f3eea048ce1577e806393ca27cfeba0b6ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:53 +0000
Subject: [PATCH 27/37] fix: an index past the end of an array is reported as
 before

---
 src/debugger/Source/Expression.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/debugger/Source/Expression.cpp b/src/debugger/Source/Expression.cpp
index a02cf42..9f5e426 100644
--- a/src/debugger/Source/Expression.cpp
+++ b/src/debugger/Source/Expression.cpp
@@ -246,8 +246,11 @@ void ExpressionEvaluator::Visit(const ArrayAccess& id) {
         if (idx == nullptr) {
             throw DebuggerError("Can only indexate with integers");
         }
-        if (idx->value < 0 || idx->value >= static_cast<int64_t>(av->members.size())) {
-            throw DebuggerError(fmt::format("Out of bounds access: {} is not in an array of {}", idx->value, av->members.size()));
+        if (idx->value < 0) {
+            throw DebuggerError(fmt::format("Out of bounds access: {} < 0", idx->value));
+        }
+        if (static_cast<size_t>(idx->value) >= av->members.size()) {
+            throw DebuggerError(fmt::format("Out of bounds access: {} >= {}", idx->value, av->members.size()));
         }
         visitor_value = av->members[idx->value];
     } else {
-- 
2.43.0


From 315e834d2ba6d2dd2373b772b0a95a2fc17c9f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:39 +0000
Subject: [PATCH 28/37] fix: a read error ended a program file early, byte 0xFF
 was taken for its end, and long runs of comments overflowed the stack

---
 src/common/parsing.cpp | 47 ++++++++++++++++++++++++------------------
 src/common/parsing.h   | 30 ++++++++++++++++++++-------
 src/t86-cli/main.cpp   |  2 +-
 3 files changed, 51 insertions(+), 28 deletions(-)

diff --git a/src/common/parsing.cpp b/src/common/parsing.cpp
index b9f95a8..bb696bd 100644
--- a/src/common/parsing.cpp
+++ b/src/common/parsing.cpp
@@ -2,12 +2,14 @@
 
 TokenKind Lexer::ParseNumber() {
     bool is_float = false;
-    std::string num{lookahead};
+    std::string num(1, static_cast<char>(lookahead));
     while (true) {
-        lookahead = GetChar();
+        GetChar();
         if (lookahead == '.') {
+            if (is_float && !ignore) {
+                throw ParserError("Number '" + num + "' has two decimal points");
+            }
             is_float = true;
-
         } else if (!isdigit(lookahead)) {
             break;
         }
@@ -42,7 +44,7 @@ void Lexer::ParseString() {
             } else if (lookahead == '\"') {
                 str += '\"';
             } else {
-                throw ParserError(fmt::format("Unknown escape sequence: '\\{}'", lookahead));
+                throw ParserError(fmt::format("Unknown escape sequence: '\\{}'", static_cast<char>(lookahead)));
             }
         } else {
             str += lookahead;
@@ -51,22 +53,32 @@ void Lexer::ParseString() {
     GetChar();
 }
 
-Token Lexer::getNext() {
-    if (lookahead == '#') {
-        while (lookahead != EOF && lookahead != '\n') {
-            GetChar();
-        }
-        if (lookahead == '\n') {
+void Lexer::SkipBlanks() {
+    while (lookahead == '#' || isspace(lookahead)) {
+        if (lookahead == '#') {
+            while (lookahead != EOF && lookahead != '\n') {
+                GetChar();
+            }
+        } else {
             GetChar();
         }
-        return getNext();
-    } else if (isspace(lookahead)) {
+    }
+}
+
+bool Lexer::BeginsToken(int c) {
+    return isalnum(c) || (c > 0 && std::strchr("_;,[]{}()!=%+-><:/*`$.\"&|^", c));
+}
+
+Token Lexer::getNext() {
+    SkipBlanks();
+    while (ignore && lookahead != EOF && !BeginsToken(lookahead)) {
         GetChar();
-        return getNext();
+        SkipBlanks();
     }
 
     RecordTokLoc();
     if (lookahead == EOF) {
+        CheckReadable();
         return MakeToken(TokenKind::END);
     } else if (lookahead == ';') {
         GetChar();
@@ -181,12 +193,7 @@ Token Lexer::getNext() {
         ParseIdentifier();
         return MakeToken(TokenKind::ID);
     } else {
-        if (ignore) {
-            GetChar();
-            return getNext();
-        } else {
-            throw ParserError(fmt::format("{}:{}:No token beginning with '{}'",
-                                          row, col, lookahead));
-        }
+        throw ParserError(fmt::format("{}:{}:No token beginning with '{}'",
+                                      row, col, static_cast<char>(lookahead)));
     }
 }
diff --git a/src/common/parsing.h b/src/common/parsing.h
index 7f46a62..42b5046 100644
--- a/src/common/parsing.h
+++ b/src/common/parsing.h
@@ -86,10 +86,13 @@ public:
 
     /// Reads the rest of the input into a string.
     std::string RawMode() {
-        std::stringstream buffer;
-        buffer << input.rdbuf();
-        log_debug("Raw parsed >{}<", buffer.str());
-        return buffer.str();
+        std::string buffer;
+        while (input.peek() != EOF) {
+            buffer += static_cast<char>(input.get());
+        }
+        CheckReadable();
+        log_debug("Raw parsed >{}<", buffer);
+        return buffer;
     }
 
     std::string getId() const { return id; }
@@ -105,7 +108,7 @@ private:
     }
 
     void ParseIdentifier() {
-        std::string str{lookahead};
+        std::string str(1, static_cast<char>(lookahead));
         while (true) {
             GetChar();
             if (!isalnum(lookahead) && lookahead != '_') {
@@ -116,7 +119,7 @@ private:
         id = str;
     }
 
-    char GetChar() {
+    int GetChar() {
         if (lookahead == '\n') {
             row += 1;
             col = 0;
@@ -127,6 +130,18 @@ private:
         return lookahead;
     }
 
+    /// Throws if the input ended because it could not be read further.
+    void CheckReadable() const {
+        if (input.bad()) {
+            throw ParserError("The input can't be read to its end");
+        }
+    }
+
+    /// Skips whitespace and comments.
+    void SkipBlanks();
+
+    static bool BeginsToken(int c);
+
     void RecordTokLoc() {
         tok_begin_row = row;
         tok_begin_col = col;
@@ -144,7 +159,8 @@ private:
     std::string str;
 
     std::istream& input;
-    char lookahead;
+    /// The next character, or EOF.
+    int lookahead;
 
     bool ignore{false};
 };
diff --git a/src/t86-cli/main.cpp b/src/t86-cli/main.cpp
index 693e76d..ae68df3 100644
--- a/src/t86-cli/main.cpp
+++ b/src/t86-cli/main.cpp
@@ -58,9 +58,9 @@ int main(int argc, char* argv[]) {
         return 3;
     }
 
-    Parser parser(f);
     tiny::t86::Program program;
     try {
+        Parser parser(f);
         program = parser.Parse();
         // program.dump();
     } catch (ParserError &err) {
-- 
2.43.0


From 26c0fc603dc5508fdb198a90471246ae82ed53fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:39 +0000
Subject: [PATCH 29/37] fix: the assembler accepted malformed operands (stale
 numbers after a sign, differences of registers, missing scale) and refused
 negative floats

---
 src/t86-parser/parser.cpp | 56 ++++++++++++++++++++++++++++++---------
 src/t86-parser/parser.h   |  3 +++
 2 files changed, 46 insertions(+), 13 deletions(-)

diff --git a/src/t86-parser/parser.cpp b/src/t86-parser/parser.cpp
index c4c62a4..8cc2234 100644
--- a/src/t86-parser/parser.cpp
+++ b/src/t86-parser/parser.cpp
@@ -28,6 +28,14 @@ void Parser::Section() {
     }
 }
 
+size_t Parser::RegisterIndex(std::string_view digits) const {
+    auto index = utils::svtonum<size_t>(digits);
+    if (!index) {
+        throw CreateError("Expected number of a register, got '{}'", digits);
+    }
+    return *index;
+}
+
 tiny::t86::Register Parser::getRegister(std::string_view regname) {
     if (regname == "BP") {
         return tiny::t86::Register::StackBasePointer();
@@ -39,7 +47,11 @@ tiny::t86::Register Parser::getRegister(std::string_view regname) {
         throw CreateError("Registers must begin with an R, unless IP, BP or SP, got {}", regname);
     }
     regname.remove_prefix(1);
-    return tiny::t86::Register{static_cast<size_t>(std::atoi(regname.data()))};
+    if (regname.find_first_of("0123456789") != 0) {
+        // Names without a number are in use, RBP for example.
+        return tiny::t86::Register{0};
+    }
+    return tiny::t86::Register{RegisterIndex(regname)};
 }
 
 tiny::t86::FloatRegister Parser::getFloatRegister(std::string_view regname) {
@@ -47,7 +59,7 @@ tiny::t86::FloatRegister Parser::getFloatRegister(std::string_view regname) {
         throw CreateError("Float registers must begin with an F");
     }
     regname.remove_prefix(1);
-    return tiny::t86::FloatRegister{static_cast<size_t>(std::atoi(regname.data()))};
+    return tiny::t86::FloatRegister{RegisterIndex(regname)};
 }
 
 /// Allows only register as operand
@@ -79,7 +91,9 @@ int64_t Parser::Imm() {
         int neg = 1;
         if (curtok.kind == TokenKind::MINUS) {
             neg = -1;
-            GetNext();
+            if (GetNext() != TokenKind::NUM) {
+                throw CreateError("Expected i");
+            }
         }
         auto val = neg * lex.getNumber();
         GetNext();
@@ -90,8 +104,13 @@ int64_t Parser::Imm() {
 }
 
 tiny::t86::Operand Parser::FloatImm() {
+    double sign = 1;
+    if (curtok.kind == TokenKind::MINUS) {
+        sign = -1;
+        GetNext();
+    }
     if (curtok.kind == TokenKind::FLOAT) {
-        double val = lex.getFloat();
+        double val = sign * lex.getFloat();
         GetNext();
         return tiny::t86::Operand(val);
     } else {
@@ -102,7 +121,7 @@ tiny::t86::Operand Parser::FloatImm() {
 tiny::t86::Operand Parser::FloatImmOrRegister() {
     if (curtok.kind == TokenKind::ID) {
         return FloatRegister();
-    } else if (curtok.kind == TokenKind::FLOAT) {
+    } else if (curtok.kind == TokenKind::FLOAT || curtok.kind == TokenKind::MINUS) {
         return FloatImm();
     } else {
         throw CreateError("Expected either f or F");
@@ -227,9 +246,7 @@ tiny::t86::Operand Parser::Memory() {
         GetNext();
         // Must be [i]
         if (IsNumber(curtok)) {
-            auto imm = lex.getNumber();
-            GetNext();
-            result = Mem(imm);
+            result = Mem(Imm());
         } else if (curtok.kind == TokenKind::ID) {
             auto regname1 = lex.getId();
             auto reg1 = getRegister(regname1);
@@ -266,7 +283,7 @@ tiny::t86::Operand Parser::Memory() {
                     } else {
                         result = Mem(reg1 + imm1);
                     }
-                } else if (curtok.kind == TokenKind::ID) {
+                } else if (curtok.kind == TokenKind::ID && !minus) {
                     auto regname2 = lex.getId();
                     auto reg2 = getRegister(regname2);
                     GetNext();
@@ -276,6 +293,8 @@ tiny::t86::Operand Parser::Memory() {
                         if (IsNumber(curtok)) {
                             auto imm = Imm();
                             result = Mem(reg1 + reg2 * imm);
+                        } else {
+                            throw CreateError("Expected 'i'");
                         }
                     // Must be [R + R]
                     } else {
@@ -322,10 +341,21 @@ tiny::t86::Operand Parser::Operand() {
         } else {
             return Register();
         }
-    } else if (IsNumber(curtok)) {
+    } else if (curtok.kind == TokenKind::NUM) {
         return Imm();
     } else if (curtok.kind == TokenKind::FLOAT) {
         return FloatImm();
+    } else if (curtok.kind == TokenKind::MINUS) {
+        GetNext();
+        if (curtok.kind == TokenKind::FLOAT) {
+            double val = -lex.getFloat();
+            GetNext();
+            return tiny::t86::Operand(val);
+        } else if (curtok.kind == TokenKind::NUM) {
+            return -Imm();
+        } else {
+            throw CreateError("Expected either i or f");
+        }
     } else {
         throw CreateError("Expected operand (excluding R + i)");
     }
@@ -363,8 +393,8 @@ std::unique_ptr<tiny::t86::MOV> Parser::ParseMOV() {
     }
     GetNext();
     auto from = Operand();
-    if (dest.isValue() || dest.isRegisterOffset()) {
-        throw CreateError("MOV can't have i or R + i as dest");
+    if (dest.isValue() || dest.isFloatValue() || dest.isRegisterOffset()) {
+        throw CreateError("MOV can't have i, f or R + i as dest");
     } else if (dest.isRegister()) {
         // Allows almost everyting
         if (from.isRegisterOffset()) {
@@ -394,7 +424,7 @@ std::unique_ptr<tiny::t86::MOV> Parser::ParseMOV() {
 
 std::unique_ptr<tiny::t86::Instruction> Parser::Instruction() {
     // Address at the beginning is optional
-    if (IsNumber(curtok)) {
+    if (curtok.kind == TokenKind::NUM) {
         GetNext();
     }
 
diff --git a/src/t86-parser/parser.h b/src/t86-parser/parser.h
index 11e0cae..7380b4a 100644
--- a/src/t86-parser/parser.h
+++ b/src/t86-parser/parser.h
@@ -19,6 +19,9 @@ public:
 
     void Section();
 
+    /// Converts what follows the R or F of a register name.
+    size_t RegisterIndex(std::string_view digits) const;
+
     tiny::t86::Register getRegister(std::string_view regname);
 
     tiny::t86::FloatRegister getFloatRegister(std::string_view regname);
-- 
2.43.0


From 183d330a290465982e1caeadc62b2fb1e4f72dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:39 +0000
Subject: [PATCH 30/37] fix: unknown or missing entries in debugging
 information reused the previous name, and a bad first token ended the
 debugger

---
 src/debugger/Source/Parser.cpp | 8 ++++++++
 src/debugger/Source/Parser.h   | 2 +-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/debugger/Source/Parser.cpp b/src/debugger/Source/Parser.cpp
index f65690e..48fd8a0 100644
--- a/src/debugger/Source/Parser.cpp
+++ b/src/debugger/Source/Parser.cpp
@@ -145,6 +145,9 @@ std::vector<expr::LocExpr> Parser::ParseExprLoc() {
             auto loc = ParseOneExprLoc();
             result.push_back(std::move(loc));
         }
+        if (curtok.kind != TokenKind::BACKTICK) {
+            throw CreateError("Expected '`' as end of location");
+        }
         GetNext(); // Eat the '`'
     } else if (curtok.kind == TokenKind::LBRACKET) {
         GetNext();
@@ -242,6 +245,9 @@ DIE Parser::ParseDIE(std::string name) {
     std::vector<DIE_ATTR> attributes;
     std::vector<DIE> childs;
     while (curtok.kind != TokenKind::RBRACE) {
+        if (curtok.kind != TokenKind::ID) {
+            throw CreateError("Expected either an attribute or a DIE");
+        }
         auto id = lex.getId();
         GetNext();
         if (id.starts_with("ATTR")) {
@@ -250,6 +256,8 @@ DIE Parser::ParseDIE(std::string name) {
         } else if (id.starts_with("DIE")) {
             auto die = ParseDIE(std::move(id));
             childs.push_back(std::move(die));
+        } else {
+            throw CreateError("Expected either an attribute or a DIE, got '{}'", id);
         }
         if (curtok.kind == TokenKind::COMMA) {
             GetNext();
diff --git a/src/debugger/Source/Parser.h b/src/debugger/Source/Parser.h
index 57412ac..66ad987 100644
--- a/src/debugger/Source/Parser.h
+++ b/src/debugger/Source/Parser.h
@@ -16,7 +16,7 @@ struct DebuggingInfo {
 /// Parser debugging information, like DIEs, line to addr mapping and so on.
 class Parser {
 public:
-    Parser(std::istream& iss) noexcept : lex(iss) { GetNext(); }
+    Parser(std::istream& iss) : lex(iss) { GetNext(); }
 
     template<typename ...Args>
     ParserError CreateError(fmt::format_string<Args...> format, Args&& ...args) const {
-- 
2.43.0


From bbc0c20eddf12af43bcd97aa56d1e5cb00c0c5a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:39 +0000
Subject: [PATCH 31/37] fix: a type that contains itself overflowed the
 debugger's stack

---
 src/debugger/Source/Source.cpp | 57 ++++++++++++++++++++++++++++++++++
 src/debugger/Source/Source.h   |  2 ++
 2 files changed, 59 insertions(+)

diff --git a/src/debugger/Source/Source.cpp b/src/debugger/Source/Source.cpp
index 384a1c9..0644f9b 100644
--- a/src/debugger/Source/Source.cpp
+++ b/src/debugger/Source/Source.cpp
@@ -1,6 +1,7 @@
 #include "debugger/Source/Source.h"
 #include "debugger/Source/ExpressionInterpreter.h"
 #include "debugger/Source/LineMapping.h"
+#include <set>
 
 uint64_t Source::SetSourceSoftwareBreakpoint(Native& native, size_t line) const {
     auto mapping = UnwrapOptional(line_mapping, "No debug info for line mapping");
@@ -267,6 +268,62 @@ void Source::ReconstructTypeInformation() {
         }
         // Else not a type die.
     }
+    RemoveSelfContainingTypes();
+}
+
+void Source::RemoveSelfContainingTypes() {
+    // A structure may point to itself. A value that contains itself or a pointer
+    // or array that ends up in itself however has neither a size nor a name.
+    auto reaches_itself = [this](size_t id, auto&& successors) {
+        std::set<size_t> seen;
+        std::vector<size_t> todo{id};
+        while (!todo.empty()) {
+            auto it = types.find(todo.back());
+            todo.pop_back();
+            if (it == types.end()) {
+                continue;
+            }
+            for (size_t next: successors(it->second)) {
+                if (next == id) {
+                    return true;
+                }
+                if (seen.insert(next).second) {
+                    todo.push_back(next);
+                }
+            }
+        }
+        return false;
+    };
+    auto contained = [](const Type& type) -> std::vector<size_t> {
+        if (auto arr = std::get_if<ArrayType>(&type)) {
+            return {arr->type_id};
+        }
+        std::vector<size_t> result;
+        if (auto structure = std::get_if<StructuredType>(&type)) {
+            for (auto&& m: structure->members) {
+                result.push_back(m.type_id);
+            }
+        }
+        return result;
+    };
+    auto pointed_to = [](const Type& type) -> std::vector<size_t> {
+        if (auto arr = std::get_if<ArrayType>(&type)) {
+            return {arr->type_id};
+        } else if (auto ptr = std::get_if<PointerType>(&type)) {
+            return {ptr->type_id};
+        }
+        return {};
+    };
+    std::set<size_t> removed;
+    for (auto&& [id, type]: types) {
+        if (reaches_itself(id, contained) || reaches_itself(id, pointed_to)) {
+            log_error("Type of id {} contains itself! Skipping this one", id);
+            removed.insert(id);
+        }
+    }
+    for (size_t id: removed) {
+        types.erase(id);
+    }
 }
 
 std::optional<Type> Source::GetVariableTypeInformation(Native& native, std::string_view name) const {
diff --git a/src/debugger/Source/Source.h b/src/debugger/Source/Source.h
index 091f5af..77ecf67 100644
--- a/src/debugger/Source/Source.h
+++ b/src/debugger/Source/Source.h
@@ -153,6 +153,8 @@ private:
     friend class ExpressionEvaluator;
     /// Builds type debugging information and stores it as class state.
     void ReconstructTypeInformation();
+    /// Types that contain themselves are treated as unknown.
+    void RemoveSelfContainingTypes();
 
     std::map<std::string, const DIE*> GetActiveVariables(uint64_t address) const;
 
-- 
2.43.0


From a13f68cc8cf36e379814ee52157f5d79dfdf3d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:04 +0000
Subject: [PATCH 32/37] fix: keep the detailed statistics only when they are
 asked for

They grew with every tick of the machine, for as long as it ran.
---
 src/t86/utils/stats_logger.cpp | 60 ++++++++++++++++++++++++++--------
 src/t86/utils/stats_logger.h   |  8 +++++
 2 files changed, 54 insertions(+), 14 deletions(-)

diff --git a/src/t86/utils/stats_logger.cpp b/src/t86/utils/stats_logger.cpp
index 201f9ce..65536c2 100644
--- a/src/t86/utils/stats_logger.cpp
+++ b/src/t86/utils/stats_logger.cpp
@@ -9,15 +9,21 @@
 
 namespace tiny::t86 {
     void StatsLogger::logInstructionFetch(std::size_t id) {
-        currentTick().instructionFetchPc = id;
+        if (enabled_) {
+            currentTick().instructionFetchPc = id;
+        }
     }
 
     void StatsLogger::logInstructionDecode(std::size_t id) {
-        currentTick().instructionDecodePc = id;
+        if (enabled_) {
+            currentTick().instructionDecodePc = id;
+        }
     }
 
     void StatsLogger::logStallRetirement(std::size_t id) {
-        currentTick().stallRetirementRSEntries.push_back(id);
+        if (enabled_) {
+            currentTick().stallRetirementRSEntries.push_back(id);
+        }
     }
 
     StatsLogger& StatsLogger::instance() {
@@ -26,15 +32,24 @@ namespace tiny::t86 {
     }
 
     void StatsLogger::logNoAluAvailable(std::size_t id) {
-        currentTick().stallNoAluRSEntries.push_back(id);
+        if (enabled_) {
+            currentTick().stallNoAluRSEntries.push_back(id);
+        }
+    }
+
+    void StatsLogger::enable(bool enabled) {
+        enabled_ = enabled;
     }
 
     void StatsLogger::newTick() {
-        ticks_.emplace_back();
+        ++tickCount_;
+        if (enabled_) {
+            ticks_.emplace_back();
+        }
     }
 
     std::size_t StatsLogger::tickCount() const {
-        return ticks_.size();
+        return tickCount_;
     }
 
     void StatsLogger::processBasicStats(std::ostream& os) {
@@ -86,6 +101,7 @@ namespace tiny::t86 {
 
     void StatsLogger::reset() {
         ticks_.clear();
+        tickCount_ = 0;
         instructions_.clear();
         id_ = 0;
     }
@@ -95,31 +111,45 @@ namespace tiny::t86 {
     }
 
     void StatsLogger::logOperandFetching(std::size_t id) {
-        currentTick().operandFetchingRSEntries.push_back(id);
+        if (enabled_) {
+            currentTick().operandFetchingRSEntries.push_back(id);
+        }
     }
 
     void StatsLogger::logStallFetch(std::size_t id) {
-        currentTick().operandFetchingStallRSEntries.push_back(id);
+        if (enabled_) {
+            currentTick().operandFetchingStallRSEntries.push_back(id);
+        }
     }
 
     void StatsLogger::logStallRegisterFetch(std::size_t id, Register reg) {
-        currentTick().stallRegisterFetchRSEntries[id].insert(reg);
+        if (enabled_) {
+            currentTick().stallRegisterFetchRSEntries[id].insert(reg);
+        }
     }
 
     void StatsLogger::logStallFloatRegisterFetch(std::size_t id, FloatRegister fReg) {
-        currentTick().stallFloatRegisterFetchRSEntries[id].insert(fReg);
+        if (enabled_) {
+            currentTick().stallFloatRegisterFetchRSEntries[id].insert(fReg);
+        }
     }
 
     void StatsLogger::logStallRAMRead(std::size_t id, std::size_t address) {
-        currentTick().stallRAMReadRSEntries[id].insert(address);
+        if (enabled_) {
+            currentTick().stallRAMReadRSEntries[id].insert(address);
+        }
     }
 
     void StatsLogger::logExecuting(std::size_t id) {
-        currentTick().executingRSEntries.push_back(id);
+        if (enabled_) {
+            currentTick().executingRSEntries.push_back(id);
+        }
     }
 
     void StatsLogger::logRetirement(std::size_t id) {
-        currentTick().retiredRSEntries.push_back(id);
+        if (enabled_) {
+            currentTick().retiredRSEntries.push_back(id);
+        }
     }
 
     void StatsLogger::processAverageLifetime(std::ostream& os, const StatsLogger::InstructionLifeTime& lt, std::size_t totalCount) {
@@ -160,7 +190,9 @@ namespace tiny::t86 {
     }
 
     std::size_t StatsLogger::registerNewInstruction(std::size_t pc, const Instruction* instruction) {
-        instructions_.emplace(id_, std::make_pair(pc, instruction));
+        if (enabled_) {
+            instructions_.emplace(id_, std::make_pair(pc, instruction));
+        }
         return id_++;
     }
 
diff --git a/src/t86/utils/stats_logger.h b/src/t86/utils/stats_logger.h
index 17162e2..8abad0b 100644
--- a/src/t86/utils/stats_logger.h
+++ b/src/t86/utils/stats_logger.h
@@ -19,6 +19,10 @@ namespace tiny::t86 {
         // Resets all the stats, should be called before every new run
         void reset();
 
+        // Detailed stats take memory for every tick, so they are collected only on demand.
+        // Should be called before the run whose stats are wanted.
+        void enable(bool enabled);
+
         void newTick();
 
         std::size_t registerNewInstruction(std::size_t pc, const Instruction* instruction);
@@ -123,6 +127,10 @@ namespace tiny::t86 {
 
         StatsLogger() = default;
 
+        bool enabled_{false};
+
+        std::size_t tickCount_{0};
+
         std::vector<TickStats> ticks_;
 
         // Each instruction gets its id
-- 
2.43.0


From d258447269d5c118623c3546c77125e683c423f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:04 +0000
Subject: [PATCH 33/37] fix: forget the address of a finished memory write

An empty entry stayed behind for every address ever written.
---
 src/t86/cpu/memory_writes_manager.cpp             | 12 ++++++++----
 src/t86/cpu/memory_writes_manager/memory_writes.h |  4 ++++
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/t86/cpu/memory_writes_manager.cpp b/src/t86/cpu/memory_writes_manager.cpp
index d00525c..d3c0777 100644
--- a/src/t86/cpu/memory_writes_manager.cpp
+++ b/src/t86/cpu/memory_writes_manager.cpp
@@ -39,20 +39,24 @@ namespace tiny::t86 {
     }
 
     void MemoryWritesManager::removeFinished(const RAM& ram) {
-        for (auto& [address, writes] : writesMap_) {
-            auto removedIds = writes.removeFinished(ram);
+        for (auto it = writesMap_.begin(); it != writesMap_.end();) {
+            auto removedIds = it->second.removeFinished(ram);
             for (MemoryWrite::Id id : removedIds) {
                 writesById.erase(id);
             }
+            // Do not keep an entry for every address ever written to
+            it = it->second.empty() ? writesMap_.erase(it) : std::next(it);
         }
     }
 
     void MemoryWritesManager::removePending() {
-        for (auto& [address, writes] : writesMap_) {
-            auto removedIds = writes.removePending();
+        for (auto it = writesMap_.begin(); it != writesMap_.end();) {
+            auto removedIds = it->second.removePending();
             for (MemoryWrite::Id id : removedIds) {
                 writesById.erase(id);
             }
+            // Do not keep an entry for every address ever written to
+            it = it->second.empty() ? writesMap_.erase(it) : std::next(it);
         }
         unspecifiedWrites_.clear();
     }
diff --git a/src/t86/cpu/memory_writes_manager/memory_writes.h b/src/t86/cpu/memory_writes_manager/memory_writes.h
index 225191a..92dd1c2 100644
--- a/src/t86/cpu/memory_writes_manager/memory_writes.h
+++ b/src/t86/cpu/memory_writes_manager/memory_writes.h
@@ -37,6 +37,10 @@ namespace tiny::t86 {
          */
         std::vector<MemoryWrite::Id> removePending();
 
+        bool empty() const {
+            return writes_.empty();
+        }
+
     private:
         // This is used to sort and lookup in the writes
         // It is sorting from largest to smallest to find writes with equal or lesser id
-- 
2.43.0


From f6ea0e13913b81e53ad9c8dc2dacb7e7feb399d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:04 +0000
Subject: [PATCH 34/37] fix: line editor in a window narrower than its prompt

The length of the visible part of the line wrapped around, and a cursor
column of zero is one column to the right.
---
 src/dbg-cli/utility/linenoise.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/dbg-cli/utility/linenoise.c b/src/dbg-cli/utility/linenoise.c
index cfe51e7..cd73a93 100644
--- a/src/dbg-cli/utility/linenoise.c
+++ b/src/dbg-cli/utility/linenoise.c
@@ -524,12 +524,13 @@ static void refreshSingleLine(struct linenoiseState *l) {
     size_t pos = l->pos;
     struct abuf ab;
 
-    while((plen+pos) >= l->cols) {
+    /* The terminal may be narrower than the prompt. */
+    while(pos > 0 && (plen+pos) >= l->cols) {
         buf++;
         len--;
         pos--;
     }
-    while (plen+len > l->cols) {
+    while (len > 0 && plen+len > l->cols) {
         len--;
     }
 
@@ -549,8 +550,11 @@ static void refreshSingleLine(struct linenoiseState *l) {
     /* Erase to right */
     snprintf(seq,64,"\x1b[0K");
     abAppend(&ab,seq,strlen(seq));
-    /* Move cursor to original position. */
-    snprintf(seq,64,"\r\x1b[%dC", (int)(pos+plen));
+    /* Move cursor to original position. Terminals take a zero for a one. */
+    if (pos+plen)
+        snprintf(seq,64,"\r\x1b[%dC", (int)(pos+plen));
+    else
+        snprintf(seq,64,"\r");
     abAppend(&ab,seq,strlen(seq));
     if (write(fd,ab.b,ab.len) == -1) {} /* Can't recover from write error. */
     abFree(&ab);
-- 
2.43.0


From b33e4470a2c4fb394496b3c50d5698df59ee5226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:04 +0000
Subject: [PATCH 35/37] fix: recall a history line of full length completely

---
 src/dbg-cli/utility/linenoise.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dbg-cli/utility/linenoise.c b/src/dbg-cli/utility/linenoise.c
index cd73a93..609dd5c 100644
--- a/src/dbg-cli/utility/linenoise.c
+++ b/src/dbg-cli/utility/linenoise.c
@@ -743,7 +743,7 @@ void linenoiseEditHistoryNext(struct linenoiseState *l, int dir) {
             return;
         }
         strncpy(l->buf,history[history_len - 1 - l->history_index],l->buflen);
-        l->buf[l->buflen-1] = '\0';
+        l->buf[l->buflen] = '\0';
         l->len = l->pos = strlen(l->buf);
         refreshLine(l);
     }
-- 
2.43.0


From cbd1497c909f293fa45832af12ab37d46723881e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:04 +0000
Subject: [PATCH 36/37] fix: execute only lines that were entered

An interrupted read, a failing one or the end of the terminal in the middle
of a line handed over what was typed so far, which was then executed. The
entry that stands for the edited line also stayed in the history then, and
was missing from it when the previous line was empty.
---
 src/dbg-cli/utility/linenoise.c | 79 ++++++++++++++++++++++-----------
 1 file changed, 54 insertions(+), 25 deletions(-)

diff --git a/src/dbg-cli/utility/linenoise.c b/src/dbg-cli/utility/linenoise.c
index 609dd5c..3e1332a 100644
--- a/src/dbg-cli/utility/linenoise.c
+++ b/src/dbg-cli/utility/linenoise.c
@@ -175,6 +175,8 @@ enum KEY_ACTION{
 
 static void linenoiseAtExit(void);
 int linenoiseHistoryAdd(const char *line);
+static int historyPush(const char *line);
+static void historyPop(void);
 static void refreshLine(struct linenoiseState *l);
 
 /* Debugging macro. */
@@ -270,6 +272,17 @@ static void disableRawMode(int fd) {
         rawmode = 0;
 }
 
+/* Read one byte from the terminal. A read that is merely interrupted is
+ * tried again. Returns 1, or what read() returned on end of file or error. */
+static int readByte(int fd, char *c) {
+    int nread;
+
+    do {
+        nread = read(fd,c,1);
+    } while (nread == -1 && errno == EINTR);
+    return nread;
+}
+
 /* Use the ESC [6n escape sequence to query the horizontal cursor position
  * and return it. On error -1 is returned, on success the position of the
  * cursor. */
@@ -283,7 +296,7 @@ static int getCursorPosition(int ifd, int ofd) {
 
     /* Read the response: ESC [ rows ; cols R */
     while (i < sizeof(buf)-1) {
-        if (read(ifd,buf+i,1) != 1) break;
+        if (readByte(ifd,buf+i) != 1) break;
         if (buf[i] == 'R') break;
         i++;
     }
@@ -387,7 +400,7 @@ static int completeLine(struct linenoiseState *ls) {
                 refreshLine(ls);
             }
 
-            nread = read(ls->ifd,&c,1);
+            nread = readByte(ls->ifd,&c);
             if (nread <= 0) {
                 freeCompletions(&lc);
                 return -1;
@@ -794,7 +807,8 @@ void linenoiseEditDeletePrevWord(struct linenoiseState *l) {
  * The resulting string is put into 'buf' when the user type enter, or
  * when ctrl+d is typed.
  *
- * The function returns the length of the current buffer. */
+ * The function returns the length of the current buffer, or -1 when the
+ * input ends or fails before that. */
 static int linenoiseEdit(int stdin_fd, int stdout_fd, char *buf, size_t buflen, const char *prompt)
 {
     struct linenoiseState l;
@@ -819,16 +833,17 @@ static int linenoiseEdit(int stdin_fd, int stdout_fd, char *buf, size_t buflen,
 
     /* The latest history entry is always our current buffer, that
      * initially is just an empty string. */
-    linenoiseHistoryAdd("");
+    historyPush("");
 
-    if (write(l.ofd,prompt,l.plen) == -1) return -1;
+    if (write(l.ofd,prompt,l.plen) == -1) goto fail;
     while(1) {
         char c;
         int nread;
         char seq[3];
 
-        nread = read(l.ifd,&c,1);
-        if (nread <= 0) return l.len;
+        /* A line that was not finished is not to be used. */
+        nread = readByte(l.ifd,&c);
+        if (nread <= 0) goto fail;
 
         /* Only autocomplete when the callback is set. It returns < 0 when
          * there was an error reading from fd. Otherwise it will return the
@@ -836,15 +851,14 @@ static int linenoiseEdit(int stdin_fd, int stdout_fd, char *buf, size_t buflen,
         if (c == 9 && completionCallback != NULL) {
             c = completeLine(&l);
             /* Return on errors */
-            if (c < 0) return l.len;
+            if (c < 0) goto fail;
             /* Read next character when 0 */
             if (c == 0) continue;
         }
 
         switch(c) {
         case ENTER:    /* enter */
-            history_len--;
-            free(history[history_len]);
+            historyPop();
             if (mlmode) linenoiseEditMoveEnd(&l);
             if (hintsCallback) {
                 /* Force a refresh without hints to leave the previous
@@ -857,7 +871,7 @@ static int linenoiseEdit(int stdin_fd, int stdout_fd, char *buf, size_t buflen,
             return (int)l.len;
         case CTRL_C:     /* ctrl-c */
             errno = EAGAIN;
-            return -1;
+            goto fail;
         case BACKSPACE:   /* backspace */
         case 8:     /* ctrl-h */
             linenoiseEditBackspace(&l);
@@ -867,9 +881,7 @@ static int linenoiseEdit(int stdin_fd, int stdout_fd, char *buf, size_t buflen,
             if (l.len > 0) {
                 linenoiseEditDelete(&l);
             } else {
-                history_len--;
-                free(history[history_len]);
-                return -1;
+                goto fail;
             }
             break;
         case CTRL_T:    /* ctrl-t, swaps current character with previous. */
@@ -897,14 +909,14 @@ static int linenoiseEdit(int stdin_fd, int stdout_fd, char *buf, size_t buflen,
             /* Read the next two bytes representing the escape sequence.
              * Use two calls to handle slow terminals returning the two
              * chars at different times. */
-            if (read(l.ifd,seq,1) == -1) break;
-            if (read(l.ifd,seq+1,1) == -1) break;
+            if (readByte(l.ifd,seq) != 1) break;
+            if (readByte(l.ifd,seq+1) != 1) break;
 
             /* ESC [ sequences. */
             if (seq[0] == '[') {
                 if (seq[1] >= '0' && seq[1] <= '9') {
                     /* Extended escape, read additional byte. */
-                    if (read(l.ifd,seq+2,1) == -1) break;
+                    if (readByte(l.ifd,seq+2) != 1) break;
                     if (seq[2] == '~') {
                         switch(seq[1]) {
                         case '3': /* Delete key. */
@@ -949,7 +961,7 @@ static int linenoiseEdit(int stdin_fd, int stdout_fd, char *buf, size_t buflen,
             }
             break;
         default:
-            if (linenoiseEditInsert(&l,c)) return -1;
+            if (linenoiseEditInsert(&l,c)) goto fail;
             break;
         case CTRL_U: /* Ctrl+u, delete the whole line. */
             buf[0] = '\0';
@@ -976,7 +988,10 @@ static int linenoiseEdit(int stdin_fd, int stdout_fd, char *buf, size_t buflen,
             break;
         }
     }
-    return l.len;
+
+fail:
+    historyPop();
+    return -1;
 }
 
 /* This special mode is used by linenoise in order to print scan codes
@@ -1046,7 +1061,8 @@ static char *linenoiseNoTTY(void) {
         }
         int c = fgetc(stdin);
         if (c == EOF || c == '\n') {
-            if (c == EOF && len == 0) {
+            /* The rest of the line is missing if the input failed. */
+            if (c == EOF && (len == 0 || ferror(stdin))) {
                 free(line);
                 return NULL;
             } else {
@@ -1080,6 +1096,8 @@ char *linenoise(const char *prompt) {
         fflush(stdout);
         if (fgets(buf,LINENOISE_MAX_LINE,stdin) == NULL) return NULL;
         len = strlen(buf);
+        /* The rest of the line is missing if the input failed. */
+        if (ferror(stdin) && (len == 0 || buf[len-1] != '\n')) return NULL;
         while(len && (buf[len-1] == '\n' || buf[len-1] == '\r')) {
             len--;
             buf[len] = '\0';
@@ -1120,14 +1138,14 @@ static void linenoiseAtExit(void) {
     freeHistory();
 }
 
-/* This is the API call to add a new entry in the linenoise history.
+/* Add a new entry at the end of the history.
  * It uses a fixed array of char pointers that are shifted (memmoved)
  * when the history max length is reached in order to remove the older
  * entry and make room for the new one, so it is not exactly suitable for huge
  * histories, but will work well for a few hundred of entries.
  *
  * Using a circular buffer is smarter, but a bit more complex to handle. */
-int linenoiseHistoryAdd(const char *line) {
+static int historyPush(const char *line) {
     char *linecopy;
 
     if (history_max_len == 0) return 0;
@@ -1139,9 +1157,6 @@ int linenoiseHistoryAdd(const char *line) {
         memset(history,0,(sizeof(char*)*history_max_len));
     }
 
-    /* Don't add duplicated lines. */
-    if (history_len && !strcmp(history[history_len-1], line)) return 0;
-
     /* Add an heap allocated copy of the line in the history.
      * If we reached the max length, remove the older line. */
     linecopy = strdup(line);
@@ -1156,6 +1171,20 @@ int linenoiseHistoryAdd(const char *line) {
     return 1;
 }
 
+/* Remove the entry that stands for the line being edited. */
+static void historyPop(void) {
+    if (history_len == 0) return;
+    history_len--;
+    free(history[history_len]);
+}
+
+/* This is the API call to add a new entry in the linenoise history. */
+int linenoiseHistoryAdd(const char *line) {
+    /* Don't add duplicated lines. */
+    if (history_len && !strcmp(history[history_len-1], line)) return 0;
+    return historyPush(line);
+}
+
 /* Set the maximum length for the history. This function can be called even
  * if there is already some history, the function will make sure to retain
  * just the latest 'len' elements if the new history length value is smaller
-- 
2.43.0


From 2604c97f79cdb745ebda3381467d31922c99bc37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:04 +0000
Subject: [PATCH 37/37] fix: refuse to start machines that cannot be set up

A memory too small for the data of the program or an impossible number of
registers or memory cells ended the debugger and t86-cli with an exception,
as did unusable options and a port that is in use in t86-cli. The machine is
now created before the previous process is given up.
---
 src/dbg-cli/CLI.h    | 43 +++++++++++++++++++++++++++++++++----------
 src/t86-cli/main.cpp | 33 ++++++++++++++++++++++++++++-----
 2 files changed, 61 insertions(+), 15 deletions(-)

diff --git a/src/dbg-cli/CLI.h b/src/dbg-cli/CLI.h
index 13891a8..add12cf 100644
--- a/src/dbg-cli/CLI.h
+++ b/src/dbg-cli/CLI.h
@@ -5,6 +5,9 @@
 #include <string_view>
 #include <cstdlib>
 #include <cassert>
+#include <memory>
+#include <new>
+#include <stdexcept>
 #include <fmt/color.h>
 #include <fmt/format.h>
 #include <fmt/core.h>
@@ -1041,8 +1044,6 @@ Most often, the correct address will be one below it.)";
             return;
         }
         auto [source, program] = ParseProgram(std::string{*fname});
-        // Only now, so that a failure above leaves the current process as it is.
-        ExitProcess();
 
         size_t reg_count = 8;
         auto v = ParseOptionalCommand<size_t>(subcommands, "--reg-count=");
@@ -1063,14 +1064,16 @@ Most often, the correct address will be one below it.)";
         auto m1 = std::make_unique<ThreadMessengerOwner>();
         auto m2 = std::make_unique<ThreadMessenger>(m1->GetOutQueue(), m1->GetInQueue());
 
-        t86vm = std::thread([](std::unique_ptr<ThreadMessenger> messenger,
-                           tiny::t86::Program program, size_t reg_cnt,
-                           double float_reg_cnt, size_t memory_size) {
-            tiny::t86::OS os(reg_cnt, float_reg_cnt, memory_size);
-            os.SetDebuggerComms(std::move(messenger));
-            os.Run(std::move(program));
-        }, std::move(m2), std::move(program), reg_count, float_reg_count, memory_size);
-        
+        auto os = MakeMachine(program, reg_count, float_reg_count, memory_size);
+        os->SetDebuggerComms(std::move(m2));
+        // Only now, so that a failure above leaves the current process as it is.
+        ExitProcess();
+
+        t86vm = std::thread([](std::unique_ptr<tiny::t86::OS> os,
+                               tiny::t86::Program program) {
+            os->Run(std::move(program));
+        }, std::move(os), std::move(program));
+
         auto t86dbg = std::make_unique<T86Process>(std::move(m1), reg_count,
                                                    float_reg_count, memory_size);
 
@@ -1090,6 +1093,26 @@ Most often, the correct address will be one below it.)";
     }
 
 
+    /// Creates the VM for given program, throws DebuggerError if the program
+    /// can't be run on such machine.
+    static std::unique_ptr<tiny::t86::OS> MakeMachine(const tiny::t86::Program& program,
+                                                      size_t reg_count,
+                                                      size_t float_reg_count,
+                                                      size_t memory_size) {
+        if (program.data().size() > memory_size) {
+            throw DebuggerError(fmt::format(
+                "The data of the program need {} memory cells, but the memory has only {}",
+                program.data().size(), memory_size));
+        }
+        try {
+            return std::make_unique<tiny::t86::OS>(reg_count, float_reg_count, memory_size);
+        } catch (const std::bad_alloc&) {
+            throw DebuggerError("Not enough memory to create the machine");
+        } catch (const std::length_error&) {
+            throw DebuggerError("The machine is too big to be created");
+        }
+    }
+
     // Cleanly exits the underlying VM if running.
     void ExitProcess() {
         if (process.Active()) {
diff --git a/src/t86-cli/main.cpp b/src/t86-cli/main.cpp
index ae68df3..da3d614 100644
--- a/src/t86-cli/main.cpp
+++ b/src/t86-cli/main.cpp
@@ -1,5 +1,8 @@
 #include <fstream>
 #include <iostream>
+#include <memory>
+#include <new>
+#include <stdexcept>
 #include <argparse/argparse.hpp>
 
 #include "TCP.h"
@@ -45,7 +48,7 @@ int main(int argc, char* argv[]) {
 
     try {
         args.parse_args(argc, argv);
-    } catch (const std::runtime_error& err) {
+    } catch (const std::exception& err) {
         std::cerr << err.what() << "\n";
         std::cerr << args;
         std::exit(1);
@@ -72,14 +75,34 @@ int main(int argc, char* argv[]) {
     size_t fltregs = args.get<size_t>("--float-register-cnt");
     size_t memsize = args.get<size_t>("--memory-size");
 
-    OS os(regs, fltregs, memsize);
+    if (program.data().size() > memsize) {
+        std::cerr << "The data of the program need " << program.data().size()
+                  << " memory cells, but the memory has only " << memsize << "\n";
+        return 4;
+    }
+
+    std::unique_ptr<OS> os;
+    try {
+        os = std::make_unique<OS>(regs, fltregs, memsize);
+    } catch (const std::bad_alloc&) {
+        std::cerr << "Not enough memory to create the machine\n";
+        return 4;
+    } catch (const std::length_error&) {
+        std::cerr << "The machine is too big to be created\n";
+        return 4;
+    }
 
     if (args["debug"] == true) {
         auto m = std::make_unique<TCP::TCPServer>(DEFAULT_DBG_PORT);
-        m->Initialize();
-        os.SetDebuggerComms(std::move(m));
+        try {
+            m->Initialize();
+        } catch (const TCP::TCPError& err) {
+            std::cerr << err.what() << "\n";
+            return 5;
+        }
+        os->SetDebuggerComms(std::move(m));
         log_info("Listening for debugger connections");
     }
 
-    os.Run(std::move(program));
+    os->Run(std::move(program));
 }
-- 
2.43.0

