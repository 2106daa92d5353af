From 4880c48273fabe0646a33a17305e53fa6c5476b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:33:05 +0000
Subject: [PATCH 01/28] fix: reject subtracting more than an output can give

When the output value was already below the dust limit the unsigned
comparison wrapped and the subtraction was accepted, leaving the output
with a value near 2^64.
---
 outputs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/outputs.go b/outputs.go
index 413ce67..66300cf 100644
--- a/outputs.go
+++ b/outputs.go
@@ -268,7 +268,7 @@ func (tx *TxBuilder) SubtractValueFromOutput(index uint32, value uint64) error {
 
 	dust := DustLimitForOutput(tx.MsgTx.TxOut[index], tx.DustFeeRate)
 
-	if tx.MsgTx.TxOut[index].Value-dust < value {
+	if tx.MsgTx.TxOut[index].Value < value || tx.MsgTx.TxOut[index].Value-value < dust {
 		return fmt.Errorf("Output value too small to subtract : %d - %d (dust %d)",
 			tx.MsgTx.TxOut[index].Value, value, dust)
 	}
-- 
2.43.0


From d4b89cf0877802b4162f3da5b3546346d3f86544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:33:06 +0000
Subject: [PATCH 02/28] fix: check index range when updating an input

An index equal to the number of inputs passed the check and panicked.
---
 inputs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inputs.go b/inputs.go
index d13c0e7..91fa522 100644
--- a/inputs.go
+++ b/inputs.go
@@ -43,7 +43,7 @@ func (tx *TxBuilder) AddInputUTXO(utxo bitcoin.UTXO) error {
 }
 
 func (tx *TxBuilder) UpdateInputUTXO(index int, utxo bitcoin.UTXO) error {
-	if index > len(tx.MsgTx.TxIn) {
+	if index >= len(tx.MsgTx.TxIn) {
 		return errors.New("Input index out of range")
 	}
 
-- 
2.43.0


From 6522a88cdb465f52eb6528fe8576221661dd2310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:33:08 +0000
Subject: [PATCH 03/28] fix: check index range when inserting an output

Inserting past the end panicked instead of returning an error like
InsertInput does.
---
 outputs.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/outputs.go b/outputs.go
index 66300cf..5e28c38 100644
--- a/outputs.go
+++ b/outputs.go
@@ -201,6 +201,10 @@ func (tx *TxBuilder) AddOutput(lockScript bitcoin.Script, value uint64,
 func (tx *TxBuilder) InsertOutput(index int, lockScript bitcoin.Script, value uint64,
 	isRemainder, isDust bool) error {
 
+	if index > len(tx.MsgTx.TxOut) {
+		return errors.New("Output index out of range")
+	}
+
 	output := &OutputSupplement{
 		IsRemainder: isRemainder,
 		IsDust:      isDust,
-- 
2.43.0


From 88095b3a8ce009db7fd60e3d92568dbc28de8144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:33:10 +0000
Subject: [PATCH 04/28] fix: keep output data with its output in
 RandomizeOutputsAfter

The supplemental data was read from the start of the list instead of
after the index, so remainder, dust and key ID flags moved to other
outputs. An index past the last output also panicked.
---
 break_value.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/break_value.go b/break_value.go
index abfebc6..97b9cec 100644
--- a/break_value.go
+++ b/break_value.go
@@ -396,11 +396,15 @@ func (tx *TxBuilder) RandomizeOutputs() {
 // that depend on outputs being at a specific index.
 func (tx *TxBuilder) RandomizeOutputsAfter(index int) {
 	randLength := len(tx.MsgTx.TxOut) - (index + 1)
+	if randLength <= 0 {
+		return // nothing after index
+	}
+
 	randOutputs := make([]*Output, randLength)
 	for i, txout := range tx.MsgTx.TxOut[index+1:] {
 		randOutputs[i] = &Output{
 			TxOut:      *txout,
-			Supplement: *tx.Outputs[i],
+			Supplement: *tx.Outputs[index+1+i],
 		}
 	}
 
-- 
2.43.0


From 7d78e9716d3992d9dcfc7733292b5acedfe84278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:33:11 +0000
Subject: [PATCH 05/28] fix: use value from embedded unlocking data for input
 value

The unlocking script size was returned as the satoshi value.
---
 fees/fees.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fees/fees.go b/fees/fees.go
index eb9b3d6..a847d42 100644
--- a/fees/fees.go
+++ b/fees/fees.go
@@ -233,7 +233,7 @@ func InputValue(txin *wire.TxIn, inputOutput *wire.TxOut) (uint64, error) {
 		return 0, MissingUnlockingData
 	}
 
-	return unlockingData.Size, nil
+	return unlockingData.Value, nil
 }
 
 func InputSizeForUnlockingScriptSize(unlockingScriptSize int) int {
-- 
2.43.0


From c7c697899fbf0fdc88cbd4454b753b2104eb451c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:33:12 +0000
Subject: [PATCH 06/28] fix: match agent bitcoin transfer scripts in fee
 estimates

The match condition was inverted, so agent bitcoin transfer scripts were
reported as unknown and any other unknown script panicked.
---
 fees/fees.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/fees/fees.go b/fees/fees.go
index a847d42..d425882 100644
--- a/fees/fees.go
+++ b/fees/fees.go
@@ -139,8 +139,10 @@ func EstimateUnlockingSize(lockingScript bitcoin.Script) (int, error) {
 			int(required)*(MaxSignaturesPushDataSize+PublicKeyPushDataSize+1), nil
 	}
 
-	if info, err := agent_bitcoin_transfer.MatchScript(lockingScript); err != nil {
-		agentUnlockingSize, err := EstimateUnlockingSize(info.AgentLockingScript)
+	if info, err := agent_bitcoin_transfer.MatchScript(lockingScript); err == nil && info != nil {
+		agentLockingScript := info.AgentLockingScript.Copy()
+		agentLockingScript.RemoveHardVerify()
+		agentUnlockingSize, err := EstimateUnlockingSize(agentLockingScript)
 		if err != nil {
 			return 0, errors.Wrap(err, "agent")
 		}
-- 
2.43.0


From f48bdad091cc1d2b8c3387f4b7af8cebfd7caeb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:33:14 +0000
Subject: [PATCH 07/28] fix: don't panic when breaking into very small values

A break value below five gave an empty random range for the variation.
BreakQuantity already guards against this.
---
 break_value.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/break_value.go b/break_value.go
index 97b9cec..2943377 100644
--- a/break_value.go
+++ b/break_value.go
@@ -85,7 +85,7 @@ func BreakValue(value, breakValue uint64, addresses []AddressKeyID,
 			outputValue *= 1000
 		}
 
-		if rand.Intn(2) == 1 {
+		if outputValue >= 10 && rand.Intn(2) == 1 {
 			outputValue = outputValue - (outputValue / 10) +
 				uint64(rand.Int63n(int64(outputValue/5)))
 		}
@@ -218,7 +218,7 @@ func BreakValueLockingScripts(value, breakValue uint64, lockingScripts []bitcoin
 			outputValue *= 1000
 		}
 
-		if rand.Intn(2) == 1 {
+		if outputValue >= 10 && rand.Intn(2) == 1 {
 			outputValue = outputValue - (outputValue / 10) +
 				uint64(rand.Int63n(int64(outputValue/5)))
 		}
-- 
2.43.0


From cb6845b9a4b8cbb4c13a77f1d66d1f75e6d61335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:33:15 +0000
Subject: [PATCH 08/28] fix: support a single locking script in
 BreakValueLockingScripts

It divided by zero. BreakValue already handles a single address.
---
 break_value.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/break_value.go b/break_value.go
index 2943377..c492ec6 100644
--- a/break_value.go
+++ b/break_value.go
@@ -169,7 +169,12 @@ func BreakValueLockingScripts(value, breakValue uint64, lockingScripts []bitcoin
 	// Choose random multiples of breakValue until the value is taken up.
 
 	// Find the average value to break the value into the provided lockingScripts
-	average := 2 * (value / uint64(len(lockingScripts)-1))
+	var average uint64
+	if len(lockingScripts) == 1 {
+		average = value
+	} else {
+		average = 2 * (value / uint64(len(lockingScripts)-1))
+	}
 
 	// Find the power to use for choosing random values
 	factor := average / breakValue
-- 
2.43.0


From f0ac6254c2787bfdd9481ae4e09de4f30d57d4eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:33:17 +0000
Subject: [PATCH 09/28] fix: return no more quantities than requested from
 BreakQuantity

The last quantity is reserved for the remainder, so the loop has to stop
one earlier or count+1 quantities are returned. A count of one divided by
zero.
---
 break_value.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/break_value.go b/break_value.go
index c492ec6..1adfd1d 100644
--- a/break_value.go
+++ b/break_value.go
@@ -299,7 +299,12 @@ func BreakQuantity(value, breakValue uint64, count int) ([]uint64, error) {
 	// Choose random multiples of breakValue until the value is taken up.
 
 	// Find the average value to break the value into the provided addresses
-	average := 2 * (value / uint64(count-1))
+	var average uint64
+	if count == 1 {
+		average = value
+	} else {
+		average = 2 * (value / uint64(count-1))
+	}
 
 	// Find the power to use for choosing random values
 	factor := average / breakValue
@@ -319,7 +324,7 @@ func BreakQuantity(value, breakValue uint64, count int) ([]uint64, error) {
 	rand.Seed(time.Now().UnixNano())
 	result := make([]uint64, 0, count)
 	nextIndex := 0
-	for i := 0; i < count; i++ {
+	for i := 0; i < count-1; i++ {
 		if remaining < breakValue {
 			break // remaining amount is less than dust required to include next address
 		}
-- 
2.43.0


From 705d81f606d4627f071e5004f69425a1f9e423fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:33:19 +0000
Subject: [PATCH 10/28] fix: don't add a zero value output in BreakValue

With a zero fee rate an output without any value was added when the
value was already fully distributed.
---
 break_value.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/break_value.go b/break_value.go
index 1adfd1d..870cd17 100644
--- a/break_value.go
+++ b/break_value.go
@@ -138,7 +138,7 @@ func BreakValue(value, breakValue uint64, addresses []AddressKeyID,
 	} else {
 		_, inputFee, _ := OutputTotalCost(lockingScript, feeRate)
 
-		if remaining >= inputFee {
+		if remaining > 0 && remaining >= inputFee {
 			result = append(result, &Output{
 				TxOut: wire.TxOut{
 					Value:         remaining,
-- 
2.43.0


From 69d814a1c3cc1efe8e8b2c0a62ea1f291408aff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:33:20 +0000
Subject: [PATCH 11/28] fix: don't require change addresses when there is a
 remainder output

AddFundingBreakChange panicked without change addresses, even when an
existing remainder output makes them unnecessary. Without a remainder
output it now returns ErrChangeAddressNeeded.
---
 inputs.go | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/inputs.go b/inputs.go
index 91fa522..d032366 100644
--- a/inputs.go
+++ b/inputs.go
@@ -295,12 +295,19 @@ func (tx *TxBuilder) AddFundingBreakChange(utxos []bitcoin.UTXO, breakValue uint
 	feeRate := float64(tx.FeeRate)
 	estFeeValue := EstimatedFeeValue(estSize, feeRate)
 
-	changeLockingScript, err := changeAddresses[0].Address.LockingScript()
-	if err != nil {
-		return errors.Wrap(err, "change locking script")
-	}
+	var outputFee, inputFee uint64
+	if !remainderIncluded {
+		if len(changeAddresses) == 0 {
+			return errors.Wrap(ErrChangeAddressNeeded, "No change addresses")
+		}
 
-	outputFee, inputFee, _ := OutputTotalCost(changeLockingScript, tx.FeeRate)
+		changeLockingScript, err := changeAddresses[0].Address.LockingScript()
+		if err != nil {
+			return errors.Wrap(err, "change locking script")
+		}
+
+		outputFee, inputFee, _ = OutputTotalCost(changeLockingScript, tx.FeeRate)
+	}
 
 	// Check if tx is already funded.
 	if !tx.SendMax && inputValue > outputValue && inputValue-outputValue >= estFeeValue {
-- 
2.43.0


From f975156e36f9113b8bd3a04615ee1a6b9a21629d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:33:22 +0000
Subject: [PATCH 12/28] fix: don't report funded txs as insufficient in
 AddFundingBreakChange

When the existing inputs covered the outputs and fees, but not the change
output, the needed funding wrapped below zero. Every UTXO was then added
and ErrInsufficientValue was returned.
---
 inputs.go | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/inputs.go b/inputs.go
index d032366..d8f0e48 100644
--- a/inputs.go
+++ b/inputs.go
@@ -332,8 +332,6 @@ func (tx *TxBuilder) AddFundingBreakChange(utxos []bitcoin.UTXO, breakValue uint
 
 	// Calculate additional funding needed. Include cost of first added input.
 	// TODO Add support for input scripts other than P2PKH.
-	estFeeValue = EstimatedFeeValue(estSize, feeRate)
-	neededFunding := estFeeValue + outputValue - inputValue
 	duplicateValue := uint64(0)
 
 	for _, utxo := range utxos {
@@ -352,20 +350,18 @@ func (tx *TxBuilder) AddFundingBreakChange(utxos []bitcoin.UTXO, breakValue uint
 
 		estSize += uint64(inputSize)
 		estFeeValue = EstimatedFeeValue(estSize, feeRate)
-		neededFunding = estFeeValue + outputValue - inputValue
 		inputValue += utxo.Value
 
 		if tx.SendMax {
 			continue
 		}
 
-		if neededFunding <= utxo.Value {
+		if outputValue+estFeeValue <= inputValue {
 			// Funding complete
 			// Re-calculate fee without estimating first change output because BreakValue will take
 			// the fees out of the values.
 			finalFeeValue := EstimatedFeeValue(estSize-firstChangeOutputSize, feeRate)
-			finalNeededFunding := finalFeeValue + outputValue - inputValue + utxo.Value
-			changeValue := utxo.Value - finalNeededFunding
+			changeValue := inputValue - outputValue - finalFeeValue
 
 			if remainderIncluded {
 				for i, output := range tx.Outputs {
@@ -395,10 +391,6 @@ func (tx *TxBuilder) AddFundingBreakChange(utxos []bitcoin.UTXO, breakValue uint
 
 			return nil
 		}
-
-		// More UTXOs required
-		estFeeValue = EstimatedFeeValue(estSize, feeRate)
-		neededFunding = estFeeValue + outputValue - inputValue
 	}
 
 	if tx.SendMax {
-- 
2.43.0


From 66d06f4fd2e0847eb85079b154a2750517399966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:33:24 +0000
Subject: [PATCH 13/28] fix: don't switch to send max when the address is
 rejected

AddMaxOutput left SendMax set even though no output was added.
---
 outputs.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/outputs.go b/outputs.go
index 5e28c38..dfdd934 100644
--- a/outputs.go
+++ b/outputs.go
@@ -150,12 +150,11 @@ func (tx *TxBuilder) AddDustOutput(address bitcoin.RawAddress, isRemainder bool)
 // AddMaxOutput adds an output to TxBuilder with a script paying the specified address and the
 // remainder flag set so that it gets all remaining value after fees are taken.
 func (tx *TxBuilder) AddMaxOutput(address bitcoin.RawAddress) error {
-	tx.SendMax = true
 	script, err := address.LockingScript()
 	if err != nil {
 		return err
 	}
-	return tx.AddOutput(script, 0, true, false)
+	return tx.AddMaxScriptOutput(script)
 }
 
 // AddMaxOutput adds an output to TxBuilder with a script paying the specified address and the
-- 
2.43.0


From d18ce20b4326a07de0002007bcb2944c1995fe30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:33:26 +0000
Subject: [PATCH 14/28] fix: leave change alone when a fee increase is rejected

AdjustFee took the amount from the change output before it found that
not enough would be left and returned ErrInsufficientValue.
---
 fees.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/fees.go b/fees.go
index e054ae6..dd6639e 100644
--- a/fees.go
+++ b/fees.go
@@ -324,13 +324,13 @@ func (tx *TxBuilder) AdjustFee(amount int64) (bool, error) {
 		}
 
 		// Decrease change, thereby increasing the fee
-		tx.MsgTx.TxOut[changeOutputIndex].Value -= uint64(amount)
+		changeValue := tx.MsgTx.TxOut[changeOutputIndex].Value - uint64(amount)
 
 		outputFee, inputFee, _ := OutputTotalCost(tx.MsgTx.TxOut[changeOutputIndex].LockingScript,
 			tx.FeeRate)
 
 		// Check if change is below dust
-		if tx.MsgTx.TxOut[changeOutputIndex].Value < outputFee+inputFee {
+		if changeValue < outputFee+inputFee {
 			if !tx.Outputs[changeOutputIndex].addedForFee {
 				// Don't remove outputs unless they were added by fee adjustment
 				return false, errors.Wrap(ErrInsufficientValue, "Not enough change for tx fee")
@@ -341,6 +341,8 @@ func (tx *TxBuilder) AdjustFee(amount int64) (bool, error) {
 				tx.MsgTx.TxOut[changeOutputIndex+1:]...)
 			tx.Outputs = append(tx.Outputs[:changeOutputIndex], tx.Outputs[changeOutputIndex+1:]...)
 			done = true
+		} else {
+			tx.MsgTx.TxOut[changeOutputIndex].Value = changeValue
 		}
 	} else {
 		// Decrease fee, transfer to change
-- 
2.43.0


From 7398227db2c8839a9c1e89deae91c2cb4a5e3c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:33:27 +0000
Subject: [PATCH 15/28] fix: don't fail funding when the change is too small to
 add

With a dust limit below the fee for an output, change between one and
two output fees was rejected by AddOutput and AddFunding returned
ErrBelowDustValue for a fully funded tx. Leave it as tx fee instead.
---
 inputs.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/inputs.go b/inputs.go
index d8f0e48..8647d50 100644
--- a/inputs.go
+++ b/inputs.go
@@ -219,7 +219,8 @@ func (tx *TxBuilder) AddFunding(utxos []bitcoin.UTXO) error {
 					}
 				}
 
-				if change > changeDustLimit+changeOutputFee {
+				// The value of a new output must be at least the fee to include it.
+				if change > changeDustLimit+changeOutputFee && change >= 2*changeOutputFee {
 					// Add new change output
 					change -= changeOutputFee
 					if len(tx.ChangeScript) == 0 {
-- 
2.43.0


From aa9c97bfd18dfc8d7c7a1d49412bce8b1f117f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:33:29 +0000
Subject: [PATCH 16/28] fix: include growth of the input and output counts in
 the fee

Adding the 253rd input or output makes the serialized count two bytes
longer. The fee calculated while adding funding or change didn't include
these bytes, so the tx could end up below the fee rate.
---
 fees.go   |  7 +++++++
 inputs.go | 15 ++++++++++++---
 2 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/fees.go b/fees.go
index dd6639e..f84c702 100644
--- a/fees.go
+++ b/fees.go
@@ -359,6 +359,7 @@ func (tx *TxBuilder) AdjustFee(amount int64) (bool, error) {
 			} else {
 				newSize = currentSize + uint64(OutputSize(tx.ChangeScript))
 			}
+			newSize += countSizeIncrease(len(tx.MsgTx.TxOut), 1)
 			newFee := EstimatedFeeValue(newSize, float64(tx.FeeRate))
 
 			changeOutputFee := newFee - currentFee
@@ -429,6 +430,12 @@ func VarIntSerializeSize(val uint64) int {
 	return 9
 }
 
+// countSizeIncrease returns the number of bytes that are added to the size of a serialized input or
+// output count when the count is increased.
+func countSizeIncrease(count, added int) uint64 {
+	return uint64(VarIntSerializeSize(uint64(count+added)) - VarIntSerializeSize(uint64(count)))
+}
+
 func EstimatedFeeValue(size uint64, feeRate float64) uint64 {
 	return uint64(math.Ceil(float64(size) * feeRate))
 }
diff --git a/inputs.go b/inputs.go
index 8647d50..8675f25 100644
--- a/inputs.go
+++ b/inputs.go
@@ -187,6 +187,8 @@ func (tx *TxBuilder) AddFunding(utxos []bitcoin.UTXO) error {
 		changeDustLimit = DustLimit(P2PKHOutputSize, tx.DustFeeRate)
 		changeOutputFee = uint64(float32(P2PKHOutputSize) * tx.FeeRate)
 	}
+	changeOutputFee += EstimatedFeeValue(countSizeIncrease(len(tx.MsgTx.TxOut), 1),
+		float64(tx.FeeRate))
 
 	for _, utxo := range utxos {
 		if err := tx.AddInputUTXO(utxo); err != nil {
@@ -202,6 +204,8 @@ func (tx *TxBuilder) AddFunding(utxos []bitcoin.UTXO) error {
 			return errors.Wrap(err, "utxo fee")
 		}
 		neededFunding += inputFee // Add cost of input
+		neededFunding += EstimatedFeeValue(countSizeIncrease(len(tx.MsgTx.TxIn)-1, 1),
+			float64(tx.FeeRate)) // Add cost of larger input count
 
 		if tx.SendMax {
 			continue
@@ -287,7 +291,8 @@ func (tx *TxBuilder) AddFundingBreakChange(utxos []bitcoin.UTXO, breakValue uint
 			return errors.Wrap(err, "first change locking script")
 		}
 
-		firstChangeOutputSize = uint64(OutputSize(lockingScript))
+		firstChangeOutputSize = uint64(OutputSize(lockingScript)) +
+			countSizeIncrease(len(tx.MsgTx.TxOut), 1)
 	}
 
 	inputValue := tx.InputValue()
@@ -349,7 +354,7 @@ func (tx *TxBuilder) AddFundingBreakChange(utxos []bitcoin.UTXO, breakValue uint
 			return errors.Wrap(err, "input size")
 		}
 
-		estSize += uint64(inputSize)
+		estSize += uint64(inputSize) + countSizeIncrease(len(tx.MsgTx.TxIn)-1, 1)
 		estFeeValue = EstimatedFeeValue(estSize, feeRate)
 		inputValue += utxo.Value
 
@@ -361,7 +366,11 @@ func (tx *TxBuilder) AddFundingBreakChange(utxos []bitcoin.UTXO, breakValue uint
 			// Funding complete
 			// Re-calculate fee without estimating first change output because BreakValue will take
 			// the fees out of the values.
-			finalFeeValue := EstimatedFeeValue(estSize-firstChangeOutputSize, feeRate)
+			finalSize := estSize - firstChangeOutputSize
+			if !remainderIncluded {
+				finalSize += countSizeIncrease(len(tx.MsgTx.TxOut), len(changeAddresses))
+			}
+			finalFeeValue := EstimatedFeeValue(finalSize, feeRate)
 			changeValue := inputValue - outputValue - finalFeeValue
 
 			if remainderIncluded {
-- 
2.43.0


From 8a7944a6c7cd9f2ba8424feb85929961555db09c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:33:30 +0000
Subject: [PATCH 17/28] fix: return a usable builder when input data is missing

The builder returned with ErrMissingInputData had nil entries for the
missing inputs, so most methods panicked on it.
---
 txbuilder.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/txbuilder.go b/txbuilder.go
index d542968..34e00f5 100644
--- a/txbuilder.go
+++ b/txbuilder.go
@@ -202,6 +202,7 @@ func NewTxBuilderFromWire(feeRate, dustFeeRate float32, tx *wire.MsgTx,
 			}
 		}
 		if !found {
+			result.Inputs[i] = &InputSupplement{}
 			missingErr = ErrMissingInputData
 		}
 	}
@@ -244,6 +245,7 @@ func NewTxBuilderFromWireUTXOs(feeRate, dustFeeRate float32, tx *wire.MsgTx,
 			}
 		}
 		if !found {
+			result.Inputs[i] = &InputSupplement{}
 			missingErr = ErrMissingInputData
 		}
 	}
-- 
2.43.0


From 02a0de5e225eb224f60e1b45f732ae6a5ab1b33f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:33:32 +0000
Subject: [PATCH 18/28] fix: keep paying for missing signatures when partially
 signing

When keys were missing Sign lowered the fee to match the size without
the missing unlocking scripts. The tx was then below the fee rate after
the other parties signed it.
---
 sign.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sign.go b/sign.go
index 0bfd78f..acaa4d2 100644
--- a/sign.go
+++ b/sign.go
@@ -110,7 +110,12 @@ func (tx *TxBuilder) Sign(keys []bitcoin.Key) ([]bitcoin.Key, error) {
 		}
 
 		// Check fee and adjust if too low
-		targetFee := int64(EstimatedFeeValue(uint64(tx.MsgTx.SerializeSize()), float64(tx.FeeRate)))
+		size := tx.MsgTx.SerializeSize()
+		if missingKey {
+			// The unlocking scripts that are still missing have to be paid for too.
+			size = tx.EstimatedSize()
+		}
+		targetFee := int64(EstimatedFeeValue(uint64(size), float64(tx.FeeRate)))
 		inputValue = tx.InputValue()
 		outputValue = tx.OutputValue(false)
 		changeValue := tx.changeSum()
-- 
2.43.0


From a723fe8f243e78fb9d2a7a8a74f87b86f657faac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:33:34 +0000
Subject: [PATCH 19/28] fix: accept exactly funded txs with a zero fee rate

AddFunding reported insufficient value when the inputs equal the outputs
and no fee is needed.
---
 inputs.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/inputs.go b/inputs.go
index 8675f25..392cfdc 100644
--- a/inputs.go
+++ b/inputs.go
@@ -150,7 +150,7 @@ func (tx *TxBuilder) AddFunding(utxos []bitcoin.UTXO) error {
 	outputValue := tx.OutputValue(true)
 	estFeeValue := tx.EstimatedFee()
 
-	if !tx.SendMax && inputValue > outputValue && inputValue-outputValue >= estFeeValue {
+	if !tx.SendMax && inputValue >= outputValue && inputValue-outputValue >= estFeeValue {
 		return tx.CalculateFee() // Already funded
 	}
 
@@ -316,7 +316,7 @@ func (tx *TxBuilder) AddFundingBreakChange(utxos []bitcoin.UTXO, breakValue uint
 	}
 
 	// Check if tx is already funded.
-	if !tx.SendMax && inputValue > outputValue && inputValue-outputValue >= estFeeValue {
+	if !tx.SendMax && inputValue >= outputValue && inputValue-outputValue >= estFeeValue {
 		if !remainderIncluded {
 			// Ensure added change output is funded
 			if inputValue-outputValue >= estFeeValue+outputFee+inputFee {
-- 
2.43.0


From 423cf32b42ab54268b0be0fb770714a11db527ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:33:36 +0000
Subject: [PATCH 20/28] fix: print exact output values

Values were rounded to single precision.
---
 txbuilder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/txbuilder.go b/txbuilder.go
index 34e00f5..4dd4552 100644
--- a/txbuilder.go
+++ b/txbuilder.go
@@ -295,7 +295,7 @@ func (tx *TxBuilder) String(net bitcoin.Network) string {
 	}
 	result += "  Outputs:\n\n"
 	for i, output := range tx.MsgTx.TxOut {
-		result += fmt.Sprintf("    Value: %.08f\n", float32(output.Value)/100000000.0)
+		result += fmt.Sprintf("    Value: %.08f\n", float64(output.Value)/100000000.0)
 		result += fmt.Sprintf("    LockingScript: %s\n", output.LockingScript)
 		ra, err := bitcoin.RawAddressFromLockingScript(output.LockingScript)
 		if err == nil {
-- 
2.43.0


From 7fad10758808c39515bd08361d94738bf773a4cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:33:38 +0000
Subject: [PATCH 21/28] fix: use embedded unlocking size in printed size
 estimate

TxString added the length of the embedded data instead of the estimated
size of the unlocking script.
---
 print.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/print.go b/print.go
index d6e321c..6aff42b 100644
--- a/print.go
+++ b/print.go
@@ -66,8 +66,8 @@ func TxString(tx expanded_tx.TransactionWithOutputs) string {
 				result.Write([]byte(fmt.Sprintf("      Party: %s\n\n", unlockData.Party)))
 
 				inputsValue += unlockData.Value
-				inputsSize += InputBaseSize + wire.VarIntSerializeSize(uint64(unlockData.Size)) +
-					len(txin.UnlockingScript)
+				inputsSize += InputBaseSize + wire.VarIntSerializeSize(unlockData.Size) +
+					int(unlockData.Size)
 				continue
 			}
 		}
-- 
2.43.0


From 77d137f97978d8e31d374ac27d0cf51ee0f7796e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:33:40 +0000
Subject: [PATCH 22/28] fix: sign the exact script bytes after OP_CODESEPARATOR

The remaining items were serialized again, which changes the script, and
so the signature hash, when it contains push data that isn't minimally
encoded or is exactly 255 bytes.
---
 sig_hash.go | 25 +++++++++++--------------
 1 file changed, 11 insertions(+), 14 deletions(-)

diff --git a/sig_hash.go b/sig_hash.go
index ac29cb8..5402919 100644
--- a/sig_hash.go
+++ b/sig_hash.go
@@ -219,23 +219,20 @@ func writeSignatureHashPreimageBytes(w io.Writer, tx *wire.MsgTx, index int, loc
 // NOTE: This is only correct if the last OP_CODESEPARATOR is actually executed when the script is
 // executed, so there is room for error here depending on the locking script. --ce
 func afterOpCodeSeparator(lockScript []byte) ([]byte, error) {
-	items, err := bitcoin.ParseScriptItems(bytes.NewReader(lockScript), -1)
-	if err != nil {
-		return nil, errors.Wrap(err, "parse")
-	}
+	// Return the original bytes because re-serializing the items can change push op codes. If there
+	// is no OP_CODESEPARATOR then the full locking script is returned.
+	result := lockScript
+	buf := bytes.NewReader(lockScript)
+	for buf.Len() > 0 {
+		item, err := bitcoin.ParseScript(buf)
+		if err != nil {
+			return nil, errors.Wrap(err, "parse")
+		}
 
-	itemCount := len(items)
-	for i := itemCount - 1; i >= 0; i-- {
-		item := items[i]
 		if item.Type == bitcoin.ScriptItemTypeOpCode && item.OpCode == bitcoin.OP_CODESEPARATOR {
-			if i == itemCount-1 {
-				return nil, nil // OP_CODESEPARATOR is the last op code of the script
-			}
-
-			return items[i+1:].Script()
+			result = lockScript[len(lockScript)-buf.Len():]
 		}
 	}
 
-	// No OP_CODESEPARATOR found so return the full locking script.
-	return lockScript, nil
+	return result, nil
 }
-- 
2.43.0


From 7715af450da5437c8bc668dd08a261a0bfe081bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:52:28 +0000
Subject: [PATCH 23/28] fix: return each signing key only once for repeated
 keys in one script

---
 sign.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sign.go b/sign.go
index acaa4d2..1fc2b5d 100644
--- a/sign.go
+++ b/sign.go
@@ -208,7 +208,7 @@ func appendKeys(list []bitcoin.Key, keys ...bitcoin.Key) []bitcoin.Key {
 	result := list
 	for _, key := range keys {
 		found := false
-		for _, k := range list {
+		for _, k := range result {
 			if k.Equal(key) {
 				found = true
 				break
-- 
2.43.0


From 788fee8d3d65e97c660d7f760e6a5fcebbc9ee6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:52:28 +0000
Subject: [PATCH 24/28] fix: allow funding everything from inputs that are
 already in the tx

---
 inputs.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/inputs.go b/inputs.go
index 392cfdc..6792c3c 100644
--- a/inputs.go
+++ b/inputs.go
@@ -154,7 +154,7 @@ func (tx *TxBuilder) AddFunding(utxos []bitcoin.UTXO) error {
 		return tx.CalculateFee() // Already funded
 	}
 
-	if len(utxos) == 0 {
+	if len(utxos) == 0 && !tx.SendMax {
 		return errors.Wrap(ErrInsufficientValue, fmt.Sprintf("no more utxos: %d/%d",
 			inputValue, outputValue+estFeeValue))
 	}
@@ -331,7 +331,7 @@ func (tx *TxBuilder) AddFundingBreakChange(utxos []bitcoin.UTXO, breakValue uint
 		}
 	}
 
-	if len(utxos) == 0 {
+	if len(utxos) == 0 && !tx.SendMax {
 		return errors.Wrap(ErrInsufficientValue, fmt.Sprintf("no more utxos: %d/%d", inputValue,
 			outputValue+estFeeValue))
 	}
-- 
2.43.0


From bc46adc45a4f7c7efe5c16653f06e831e6b00cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:52:29 +0000
Subject: [PATCH 25/28] fix: don't share outputs between the caller and the tx
 they are added to

---
 break_value.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/break_value.go b/break_value.go
index 870cd17..070ac17 100644
--- a/break_value.go
+++ b/break_value.go
@@ -373,8 +373,10 @@ func BreakQuantity(value, breakValue uint64, count int) ([]uint64, error) {
 // AddOutputs appends the specified outputs to the tx.
 func (tx *TxBuilder) AddOutputs(outputs []*Output) {
 	for _, output := range outputs {
-		tx.MsgTx.AddTxOut(&output.TxOut)
-		tx.Outputs = append(tx.Outputs, &output.Supplement)
+		// Copy so later changes to this tx don't modify the outputs provided.
+		c := *output
+		tx.MsgTx.AddTxOut(&c.TxOut)
+		tx.Outputs = append(tx.Outputs, &c.Supplement)
 	}
 }
 
-- 
2.43.0


From 82bfb4d83e9122a97fa28935762f8bee94cba53d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:37:56 +0000
Subject: [PATCH 26/28] fix: do not print or chain transactions without outputs

When the value of the inputs is too small for a change output, create_send
and create_sends printed a transaction with no outputs, and create_sends
then crashed reading the first output.
---
 cmd/main.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/cmd/main.go b/cmd/main.go
index 3f5a018..ceaa351 100644
--- a/cmd/main.go
+++ b/cmd/main.go
@@ -140,6 +140,11 @@ func CreateSend(ctx context.Context, cfg *Config, args []string) {
 		return
 	}
 
+	if len(tx.MsgTx.TxOut) == 0 {
+		fmt.Printf("Failed to create transaction : not enough value for an output\n")
+		return
+	}
+
 	buf := &bytes.Buffer{}
 	if err := tx.MsgTx.Serialize(buf); err != nil {
 		fmt.Printf("Failed to serialize tx : %s\n", err)
@@ -223,6 +228,11 @@ func CreateSends(ctx context.Context, cfg *Config, args []string) {
 		return
 	}
 
+	if len(tx.MsgTx.TxOut) == 0 {
+		fmt.Printf("Failed to create transaction : not enough value for an output\n")
+		return
+	}
+
 	buf := &bytes.Buffer{}
 	if err := tx.MsgTx.Serialize(buf); err != nil {
 		fmt.Printf("Failed to serialize tx : %s\n", err)
@@ -272,6 +282,11 @@ func CreateSends(ctx context.Context, cfg *Config, args []string) {
 			return
 		}
 
+		if len(tx.MsgTx.TxOut) == 0 {
+			fmt.Printf("Failed to create transaction : not enough value for an output\n")
+			return
+		}
+
 		buf := &bytes.Buffer{}
 		if err := tx.MsgTx.Serialize(buf); err != nil {
 			fmt.Printf("Failed to serialize tx : %s\n", err)
-- 
2.43.0


From 344eb56af6b3345a0ad687d48046c6864b4cfa94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:37:56 +0000
Subject: [PATCH 27/28] fix: reject negative amounts in create_send

A negative amount was converted to an unsigned value near the maximum,
which overflowed the check for sufficient value, and a transaction paying
that value was printed.
---
 cmd/main.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cmd/main.go b/cmd/main.go
index ceaa351..d5496bb 100644
--- a/cmd/main.go
+++ b/cmd/main.go
@@ -96,6 +96,10 @@ func CreateSend(ctx context.Context, cfg *Config, args []string) {
 		fmt.Printf("Invalid amount : %s : %s\n", args[2], err)
 		return
 	}
+	if amount < 0 {
+		fmt.Printf("Invalid amount : %s : negative\n", args[2])
+		return
+	}
 
 	tx := txbuilder.NewTxBuilder(cfg.FeeRate, cfg.DustFeeRate)
 	for i := 3; i < len(args); i++ {
-- 
2.43.0


From b9b76af44cbe3c0da8a5256fd2d980990533ce12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:31:20 +0000
Subject: [PATCH 28/28] fix: cover the estimated fee again when signing
 replaces embedded value

---
 sign.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sign.go b/sign.go
index 1fc2b5d..9ca6dd3 100644
--- a/sign.go
+++ b/sign.go
@@ -121,6 +121,12 @@ func (tx *TxBuilder) Sign(keys []bitcoin.Key) ([]bitcoin.Key, error) {
 		changeValue := tx.changeSum()
 		currentFee = int64(inputValue) - int64(outputValue) - int64(changeValue)
 
+		if estimatedFee := int64(tx.EstimatedFee()); currentFee < estimatedFee {
+			// Signing replaced unlocking data that provided value. Cover the estimate again so the tx
+			// can still be signed again.
+			targetFee = estimatedFee
+		}
+
 		if inputValue < outputValue+uint64(targetFee) {
 			return nil, errors.Wrap(ErrInsufficientValue, fmt.Sprintf("%d/%d", inputValue,
 				outputValue+uint64(targetFee)))
-- 
2.43.0

