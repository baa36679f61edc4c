From cd7f99ee977438fa9fc78ce75aa64fcdd2c5c5ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:21 +0000
Subject: [PATCH 01/32] fix: reject packets whose header length contradicts the
 header instead of panicking

Package.Decode sliced content by the HL byte (HL=0 underflows to 255) and added
HL+FDL in uint16 (wraps for FDL close to 65535), so a crafted packet panicked the
decoder and with it the whole receiver process.
---
 libs/egts/egts_pkg.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/libs/egts/egts_pkg.go b/libs/egts/egts_pkg.go
index d7c0600..21670c4 100644
--- a/libs/egts/egts_pkg.go
+++ b/libs/egts/egts_pkg.go
@@ -121,7 +121,13 @@ func (p *Package) Decode(content []byte, opt ...func(*Options)) (uint8, error) {
 		return egtsPcIncHeaderform, fmt.Errorf("Не удалось получить crc заголовка: %v", err)
 	}
 
-	if p.HeaderCheckSum != crc8(content[:p.HeaderLength-1]) {
+	// длина заголовка должна совпадать с фактически разобранной, иначе границы секций пакета не определены
+	headerLen := len(content) - buf.Len()
+	if int(p.HeaderLength) != headerLen {
+		return egtsPcIncHeaderform, fmt.Errorf("Некорректная длина заголовка пакета: %d", p.HeaderLength)
+	}
+
+	if p.HeaderCheckSum != crc8(content[:headerLen-1]) {
 		return egtsPcHeaderCrcError, fmt.Errorf("Не верная сумма заголовка пакета")
 	}
 
@@ -160,7 +166,7 @@ func (p *Package) Decode(content []byte, opt ...func(*Options)) (uint8, error) {
 	}
 	p.ServicesFrameDataCheckSum = binary.LittleEndian.Uint16(crcBytes)
 
-	if p.ServicesFrameDataCheckSum != crc16(content[p.HeaderLength:uint16(p.HeaderLength)+p.FrameDataLength]) {
+	if p.ServicesFrameDataCheckSum != crc16(content[headerLen:headerLen+int(p.FrameDataLength)]) {
 		return egtsPcHeaderCrcError, fmt.Errorf("Не верная сумма тела пакета")
 	}
 	return egtsPcOk, err
-- 
2.43.0


From b9b35cd4fbfb01c1fa869e706d9f16a573ddf2f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:45 +0000
Subject: [PATCH 02/32] fix: verify the frame data checksum before parsing and
 report it as a data checksum error

A packet cut by one byte was accepted when the missing CRC byte was zero, and a
body checksum mismatch was reported as EGTS_PC_HEADER_CRC_ERROR (or as whatever
parsing the corrupted body produced) instead of EGTS_PC_DATACRC_ERROR.
---
 libs/egts/egts_pkg.go | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/libs/egts/egts_pkg.go b/libs/egts/egts_pkg.go
index 21670c4..03b59c5 100644
--- a/libs/egts/egts_pkg.go
+++ b/libs/egts/egts_pkg.go
@@ -5,6 +5,7 @@ import (
 	"encoding/binary"
 	"encoding/json"
 	"fmt"
+	"io"
 	"strconv"
 )
 
@@ -135,6 +136,17 @@ func (p *Package) Decode(content []byte, opt ...func(*Options)) (uint8, error) {
 	if _, err = buf.Read(dataFrameBytes); err != nil {
 		return egtsPcIncDataform, fmt.Errorf("Не считать тело пакета: %v", err)
 	}
+
+	crcBytes := make([]byte, 2)
+	if _, err = io.ReadFull(buf, crcBytes); err != nil {
+		return egtsPcIncDataform, fmt.Errorf("Не удалось считать crc16 пакета: %v", err)
+	}
+	p.ServicesFrameDataCheckSum = binary.LittleEndian.Uint16(crcBytes)
+
+	if p.ServicesFrameDataCheckSum != crc16(dataFrameBytes) {
+		return egtsPcDatacrcError, fmt.Errorf("Не верная сумма тела пакета")
+	}
+
 	switch p.PacketType {
 	case PtAppdataPacket:
 		p.ServicesFrameData = &ServiceDataSet{}
@@ -160,15 +172,6 @@ func (p *Package) Decode(content []byte, opt ...func(*Options)) (uint8, error) {
 		return egtsPcDecryptError, err
 	}
 
-	crcBytes := make([]byte, 2)
-	if _, err = buf.Read(crcBytes); err != nil {
-		return egtsPcDecryptError, fmt.Errorf("Не удалось считать crc16 пакета: %v", err)
-	}
-	p.ServicesFrameDataCheckSum = binary.LittleEndian.Uint16(crcBytes)
-
-	if p.ServicesFrameDataCheckSum != crc16(content[headerLen:headerLen+int(p.FrameDataLength)]) {
-		return egtsPcHeaderCrcError, fmt.Errorf("Не верная сумма тела пакета")
-	}
 	return egtsPcOk, err
 }
 
-- 
2.43.0


From d4d3d3b8751f0400cd0ed8e214c0c7125a0722b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:19 +0000
Subject: [PATCH 03/32] fix: read the POS_DATA altitude as the three-byte field
 it is

A fourth byte was read when the subrecord carried SRCD, mixing source data into
the altitude.
---
 libs/egts/egts_sr_pos_data.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/egts/egts_sr_pos_data.go b/libs/egts/egts_sr_pos_data.go
index 3f823db..1ddd9c4 100644
--- a/libs/egts/egts_sr_pos_data.go
+++ b/libs/egts/egts_sr_pos_data.go
@@ -119,7 +119,7 @@ func (e *SrPosData) Decode(content []byte) error {
 
 	if e.ALTE == "1" {
 		bytesTmpBuf = []byte{0, 0, 0, 0}
-		if _, err = buf.Read(bytesTmpBuf); err != nil {
+		if _, err = buf.Read(bytesTmpBuf[:3]); err != nil {
 			return fmt.Errorf("Не удалось получить высоту над уровнем моря: %v", err)
 		}
 		e.Altitude = binary.LittleEndian.Uint32(bytesTmpBuf)
-- 
2.43.0


From 4f0f7d7342adf44760245f93fb7f8405cc4822ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:56 +0000
Subject: [PATCH 04/32] fix: reject truncated fields instead of padding them
 with zeros

Reader.Read returns fewer bytes than asked at the end of the data without an
error, so records and subrecords shorter than their declared length or than the
fields their flags announce were accepted with invented zero bytes.
---
 libs/egts/egts_pkg.go                    | 10 +++++-----
 libs/egts/egts_pt_response.go            |  3 ++-
 libs/egts/egts_sr_abs_cntr_data.go       |  3 ++-
 libs/egts/egts_sr_ad_sensors_data.go     | 17 +++++++++--------
 libs/egts/egts_sr_counters_data.go       | 17 +++++++++--------
 libs/egts/egts_sr_dispatcher_identity.go |  3 ++-
 libs/egts/egts_sr_ext_pos_data.go        |  9 +++++----
 libs/egts/egts_sr_liquid_level_sensor.go |  5 +++--
 libs/egts/egts_sr_module_data.go         |  7 ++++---
 libs/egts/egts_sr_pos_data.go            | 13 +++++++------
 libs/egts/egts_sr_response.go            |  3 ++-
 libs/egts/egts_sr_term_identity.go       | 17 +++++++++--------
 libs/egts/record_data.go                 |  6 +++++-
 libs/egts/service_data_records.go        | 13 +++++++------
 14 files changed, 71 insertions(+), 55 deletions(-)

diff --git a/libs/egts/egts_pkg.go b/libs/egts/egts_pkg.go
index 03b59c5..87f27ef 100644
--- a/libs/egts/egts_pkg.go
+++ b/libs/egts/egts_pkg.go
@@ -88,12 +88,12 @@ func (p *Package) Decode(content []byte, opt ...func(*Options)) (uint8, error) {
 	}
 
 	tmpIntBuf := make([]byte, 2)
-	if _, err = buf.Read(tmpIntBuf); err != nil {
+	if _, err = io.ReadFull(buf, tmpIntBuf); err != nil {
 		return egtsPcIncHeaderform, fmt.Errorf("Не удалось получить длину секции данных: %v", err)
 	}
 	p.FrameDataLength = binary.LittleEndian.Uint16(tmpIntBuf)
 
-	if _, err = buf.Read(tmpIntBuf); err != nil {
+	if _, err = io.ReadFull(buf, tmpIntBuf); err != nil {
 		return egtsPcIncHeaderform, fmt.Errorf("Не удалось получить идентификатор пакета: %v", err)
 	}
 	p.PacketIdentifier = binary.LittleEndian.Uint16(tmpIntBuf)
@@ -103,12 +103,12 @@ func (p *Package) Decode(content []byte, opt ...func(*Options)) (uint8, error) {
 	}
 
 	if p.Route == "1" {
-		if _, err = buf.Read(tmpIntBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpIntBuf); err != nil {
 			return egtsPcIncHeaderform, fmt.Errorf("Не удалось получить адрес апк отправителя: %v", err)
 		}
 		p.PeerAddress = binary.LittleEndian.Uint16(tmpIntBuf)
 
-		if _, err = buf.Read(tmpIntBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpIntBuf); err != nil {
 			return egtsPcIncHeaderform, fmt.Errorf("Не удалось получить адрес апк получателя: %v", err)
 		}
 		p.RecipientAddress = binary.LittleEndian.Uint16(tmpIntBuf)
@@ -133,7 +133,7 @@ func (p *Package) Decode(content []byte, opt ...func(*Options)) (uint8, error) {
 	}
 
 	dataFrameBytes := make([]byte, p.FrameDataLength)
-	if _, err = buf.Read(dataFrameBytes); err != nil {
+	if _, err = io.ReadFull(buf, dataFrameBytes); err != nil {
 		return egtsPcIncDataform, fmt.Errorf("Не считать тело пакета: %v", err)
 	}
 
diff --git a/libs/egts/egts_pt_response.go b/libs/egts/egts_pt_response.go
index 0f1aa4f..e48cdc5 100644
--- a/libs/egts/egts_pt_response.go
+++ b/libs/egts/egts_pt_response.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"fmt"
+	"io"
 )
 
 //PtResponse структура подзаписи типа EGTS_PT_RESPONSE
@@ -21,7 +22,7 @@ func (s *PtResponse) Decode(content []byte) error {
 	buf := bytes.NewBuffer(content)
 
 	tmpIntBuf := make([]byte, 2)
-	if _, err = buf.Read(tmpIntBuf); err != nil {
+	if _, err = io.ReadFull(buf, tmpIntBuf); err != nil {
 		return fmt.Errorf("Не удалось получить идентификатор пакета из ответа: %v", err)
 	}
 	s.ResponsePacketID = binary.LittleEndian.Uint16(tmpIntBuf)
diff --git a/libs/egts/egts_sr_abs_cntr_data.go b/libs/egts/egts_sr_abs_cntr_data.go
index 6976c0f..00ee94d 100644
--- a/libs/egts/egts_sr_abs_cntr_data.go
+++ b/libs/egts/egts_sr_abs_cntr_data.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"fmt"
+	"io"
 )
 
 //SrAbsCntrData структура подзаписи типа EGTS_SR_ABS_CNTR_DATA, которая применяется
@@ -26,7 +27,7 @@ func (e *SrAbsCntrData) Decode(content []byte) error {
 	}
 
 	tmpBuf := make([]byte, 3)
-	if _, err = buf.Read(tmpBuf); err != nil {
+	if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 		return fmt.Errorf("Не удалось получить значение показаний счетного входа: %v", err)
 	}
 
diff --git a/libs/egts/egts_sr_ad_sensors_data.go b/libs/egts/egts_sr_ad_sensors_data.go
index 2b7f651..be70056 100644
--- a/libs/egts/egts_sr_ad_sensors_data.go
+++ b/libs/egts/egts_sr_ad_sensors_data.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"fmt"
+	"io"
 	"strconv"
 )
 
@@ -138,7 +139,7 @@ func (e *SrAdSensorsData) Decode(content []byte) error {
 
 	tmpBuf := make([]byte, 3)
 	if e.AnalogSensorFieldExists1 == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить показания ANS1: %v", err)
 		}
 		analogSensVal = append(tmpBuf, 0x00)
@@ -146,7 +147,7 @@ func (e *SrAdSensorsData) Decode(content []byte) error {
 	}
 
 	if e.AnalogSensorFieldExists2 == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить показания ANS2: %v", err)
 		}
 		analogSensVal = append(tmpBuf, 0x00)
@@ -154,7 +155,7 @@ func (e *SrAdSensorsData) Decode(content []byte) error {
 	}
 
 	if e.AnalogSensorFieldExists3 == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить показания ANS3: %v", err)
 		}
 		analogSensVal = append(tmpBuf, 0x00)
@@ -162,7 +163,7 @@ func (e *SrAdSensorsData) Decode(content []byte) error {
 	}
 
 	if e.AnalogSensorFieldExists4 == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить показания ANS4: %v", err)
 		}
 		analogSensVal = append(tmpBuf, 0x00)
@@ -170,7 +171,7 @@ func (e *SrAdSensorsData) Decode(content []byte) error {
 	}
 
 	if e.AnalogSensorFieldExists5 == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить показания ANS5: %v", err)
 		}
 		analogSensVal = append(tmpBuf, 0x00)
@@ -178,7 +179,7 @@ func (e *SrAdSensorsData) Decode(content []byte) error {
 	}
 
 	if e.AnalogSensorFieldExists6 == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить показания ANS6: %v", err)
 		}
 		analogSensVal = append(tmpBuf, 0x00)
@@ -186,7 +187,7 @@ func (e *SrAdSensorsData) Decode(content []byte) error {
 	}
 
 	if e.AnalogSensorFieldExists7 == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить показания ANS7: %v", err)
 		}
 		analogSensVal = append(tmpBuf, 0x00)
@@ -194,7 +195,7 @@ func (e *SrAdSensorsData) Decode(content []byte) error {
 	}
 
 	if e.AnalogSensorFieldExists8 == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить показания ANS8: %v", err)
 		}
 		analogSensVal = append(tmpBuf, 0x00)
diff --git a/libs/egts/egts_sr_counters_data.go b/libs/egts/egts_sr_counters_data.go
index ebae25d..b8128d4 100644
--- a/libs/egts/egts_sr_counters_data.go
+++ b/libs/egts/egts_sr_counters_data.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"fmt"
+	"io"
 	"strconv"
 )
 
@@ -53,7 +54,7 @@ func (c *SrCountersData) Decode(content []byte) error {
 
 	tmpBuf := make([]byte, 3)
 	if c.CounterFieldExists1 == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить показания CN1: %v", err)
 		}
 		counterVal = append(tmpBuf, 0x00)
@@ -61,7 +62,7 @@ func (c *SrCountersData) Decode(content []byte) error {
 	}
 
 	if c.CounterFieldExists2 == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить показания CN2: %v", err)
 		}
 		counterVal = append(tmpBuf, 0x00)
@@ -69,7 +70,7 @@ func (c *SrCountersData) Decode(content []byte) error {
 	}
 
 	if c.CounterFieldExists3 == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить показания CN3: %v", err)
 		}
 		counterVal = append(tmpBuf, 0x00)
@@ -77,7 +78,7 @@ func (c *SrCountersData) Decode(content []byte) error {
 	}
 
 	if c.CounterFieldExists4 == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить показания CN4: %v", err)
 		}
 		counterVal = append(tmpBuf, 0x00)
@@ -85,7 +86,7 @@ func (c *SrCountersData) Decode(content []byte) error {
 	}
 
 	if c.CounterFieldExists5 == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить показания CN5: %v", err)
 		}
 		counterVal = append(tmpBuf, 0x00)
@@ -93,7 +94,7 @@ func (c *SrCountersData) Decode(content []byte) error {
 	}
 
 	if c.CounterFieldExists6 == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить показания CN6: %v", err)
 		}
 		counterVal = append(tmpBuf, 0x00)
@@ -101,7 +102,7 @@ func (c *SrCountersData) Decode(content []byte) error {
 	}
 
 	if c.CounterFieldExists7 == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить показания CN7: %v", err)
 		}
 		counterVal = append(tmpBuf, 0x00)
@@ -109,7 +110,7 @@ func (c *SrCountersData) Decode(content []byte) error {
 	}
 
 	if c.CounterFieldExists8 == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить показания CN8: %v", err)
 		}
 		counterVal = append(tmpBuf, 0x00)
diff --git a/libs/egts/egts_sr_dispatcher_identity.go b/libs/egts/egts_sr_dispatcher_identity.go
index 0eb5f33..6327246 100644
--- a/libs/egts/egts_sr_dispatcher_identity.go
+++ b/libs/egts/egts_sr_dispatcher_identity.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"fmt"
+	"io"
 )
 
 // SrDispatcherIdentity структура подзаписи типа EGTS_SR_DISPATCHER_IDENTITY, которая используется
@@ -26,7 +27,7 @@ func (d *SrDispatcherIdentity) Decode(content []byte) error {
 	}
 
 	tmpIntBuf := make([]byte, 4)
-	if _, err = buf.Read(tmpIntBuf); err != nil {
+	if _, err = io.ReadFull(buf, tmpIntBuf); err != nil {
 		return fmt.Errorf("Не удалось получить уникальный идентификатор диспетчера: %v", err)
 	}
 	d.DispatcherID = binary.LittleEndian.Uint32(tmpIntBuf)
diff --git a/libs/egts/egts_sr_ext_pos_data.go b/libs/egts/egts_sr_ext_pos_data.go
index f2ea748..b7ab165 100644
--- a/libs/egts/egts_sr_ext_pos_data.go
+++ b/libs/egts/egts_sr_ext_pos_data.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"fmt"
+	"io"
 	"strconv"
 )
 
@@ -44,21 +45,21 @@ func (e *SrExtPosData) Decode(content []byte) error {
 	e.VdopFieldExists = flagBits[7:]
 
 	if e.VdopFieldExists == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить снижение точности в вертикальной плоскости: %v", err)
 		}
 		e.VerticalDilutionOfPrecision = binary.LittleEndian.Uint16(tmpBuf)
 	}
 
 	if e.HdopFieldExists == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить снижение точности в горизонтальной плоскости: %v", err)
 		}
 		e.HorizontalDilutionOfPrecision = binary.LittleEndian.Uint16(tmpBuf)
 	}
 
 	if e.PdopFieldExists == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить снижение точности по местоположению: %v", err)
 		}
 		e.PositionDilutionOfPrecision = binary.LittleEndian.Uint16(tmpBuf)
@@ -71,7 +72,7 @@ func (e *SrExtPosData) Decode(content []byte) error {
 	}
 
 	if e.NavigationSystemFieldExists == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить битовые флаги спутниковых систем: %v", err)
 		}
 		e.NavigationSystem = binary.LittleEndian.Uint16(tmpBuf)
diff --git a/libs/egts/egts_sr_liquid_level_sensor.go b/libs/egts/egts_sr_liquid_level_sensor.go
index 2df3469..dc346f6 100644
--- a/libs/egts/egts_sr_liquid_level_sensor.go
+++ b/libs/egts/egts_sr_liquid_level_sensor.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"fmt"
+	"io"
 	"strconv"
 )
 
@@ -42,13 +43,13 @@ func (e *SrLiquidLevelSensor) Decode(content []byte) error {
 	e.LiquidLevelSensorNumber = uint8(sensNum)
 
 	bytesTmpBuf := make([]byte, 2)
-	if _, err = buf.Read(bytesTmpBuf); err != nil {
+	if _, err = io.ReadFull(buf, bytesTmpBuf); err != nil {
 		return fmt.Errorf("Не удалось получить адрес модуля ДУЖ: %v", err)
 	}
 	e.ModuleAddress = binary.LittleEndian.Uint16(bytesTmpBuf)
 
 	bytesTmpBuf = make([]byte, 4)
-	if _, err = buf.Read(bytesTmpBuf); err != nil {
+	if _, err = io.ReadFull(buf, bytesTmpBuf); err != nil {
 		return fmt.Errorf("Не удалось получить показания ДУЖ: %v", err)
 	}
 	e.LiquidLevelSensorData = binary.LittleEndian.Uint32(bytesTmpBuf)
diff --git a/libs/egts/egts_sr_module_data.go b/libs/egts/egts_sr_module_data.go
index 86dc227..ff60c66 100644
--- a/libs/egts/egts_sr_module_data.go
+++ b/libs/egts/egts_sr_module_data.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"fmt"
+	"io"
 )
 
 const (
@@ -38,19 +39,19 @@ func (e *SrModuleData) Decode(content []byte) error {
 	e.ModuleType = int8(moduleType)
 
 	tmpBuf := make([]byte, 4)
-	if _, err = buf.Read(tmpBuf); err != nil {
+	if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 		return fmt.Errorf("не удалось получить ID вендора")
 	}
 	e.VendorID = binary.LittleEndian.Uint32(tmpBuf)
 
 	tmpBuf = make([]byte, 2)
-	if _, err = buf.Read(tmpBuf); err != nil {
+	if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 		return fmt.Errorf("не удалось получить версию прошивки")
 	}
 	e.FirmwareVersion = binary.LittleEndian.Uint16(tmpBuf)
 
 	tmpBuf = make([]byte, 2)
-	if _, err = buf.Read(tmpBuf); err != nil {
+	if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 		return fmt.Errorf("не удалось получить версию ПО")
 	}
 	e.SoftwareVersion = binary.LittleEndian.Uint16(tmpBuf)
diff --git a/libs/egts/egts_sr_pos_data.go b/libs/egts/egts_sr_pos_data.go
index 1ddd9c4..83bf2a4 100644
--- a/libs/egts/egts_sr_pos_data.go
+++ b/libs/egts/egts_sr_pos_data.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"fmt"
+	"io"
 	"strconv"
 	"time"
 )
@@ -45,14 +46,14 @@ func (e *SrPosData) Decode(content []byte) error {
 	// Преобразуем время навигации к формату, который требует стандарт: количество секунд с 00:00:00 01.01.2010 UTC
 	startDate := time.Date(2010, time.January, 1, 0, 0, 0, 0, time.UTC)
 	tmpUint32Buf := make([]byte, 4)
-	if _, err = buf.Read(tmpUint32Buf); err != nil {
+	if _, err = io.ReadFull(buf, tmpUint32Buf); err != nil {
 		return fmt.Errorf("Не удалось получить время навигации: %v", err)
 	}
 	preFieldVal := binary.LittleEndian.Uint32(tmpUint32Buf)
 	e.NavigationTime = startDate.Add(time.Duration(preFieldVal) * time.Second)
 
 	// В протоколе значение хранится в виде: широта по модулю, градусы/90*0xFFFFFFFF  и взята целая часть
-	if _, err = buf.Read(tmpUint32Buf); err != nil {
+	if _, err = io.ReadFull(buf, tmpUint32Buf); err != nil {
 		return fmt.Errorf("Не удалось получить широту: %v", err)
 	}
 
@@ -60,7 +61,7 @@ func (e *SrPosData) Decode(content []byte) error {
 	e.Latitude = float64(float64(preFieldVal) * 90 / 0xFFFFFFFF)
 
 	// В протоколе значение хранится в виде: долгота по модулю, градусы/180*0xFFFFFFFF  и взята целая часть
-	if _, err = buf.Read(tmpUint32Buf); err != nil {
+	if _, err = io.ReadFull(buf, tmpUint32Buf); err != nil {
 		return fmt.Errorf("Не удалось получить время долгату: %v", err)
 	}
 	preFieldVal = binary.LittleEndian.Uint32(tmpUint32Buf)
@@ -82,7 +83,7 @@ func (e *SrPosData) Decode(content []byte) error {
 
 	// скорость
 	tmpUint16Buf := make([]byte, 2)
-	if _, err = buf.Read(tmpUint16Buf); err != nil {
+	if _, err = io.ReadFull(buf, tmpUint16Buf); err != nil {
 		return fmt.Errorf("Не удалось получить скорость: %v", err)
 	}
 	spd := binary.LittleEndian.Uint16(tmpUint16Buf)
@@ -103,7 +104,7 @@ func (e *SrPosData) Decode(content []byte) error {
 	e.Direction |= e.DirectionHighestBit << 7
 
 	bytesTmpBuf := make([]byte, 3)
-	if _, err = buf.Read(bytesTmpBuf); err != nil {
+	if _, err = io.ReadFull(buf, bytesTmpBuf); err != nil {
 		return fmt.Errorf("Не удалось получить пройденное расстояние (пробег) в км: %v", err)
 	}
 	bytesTmpBuf = append(bytesTmpBuf, 0x00)
@@ -119,7 +120,7 @@ func (e *SrPosData) Decode(content []byte) error {
 
 	if e.ALTE == "1" {
 		bytesTmpBuf = []byte{0, 0, 0, 0}
-		if _, err = buf.Read(bytesTmpBuf[:3]); err != nil {
+		if _, err = io.ReadFull(buf, bytesTmpBuf[:3]); err != nil {
 			return fmt.Errorf("Не удалось получить высоту над уровнем моря: %v", err)
 		}
 		e.Altitude = binary.LittleEndian.Uint32(bytesTmpBuf)
diff --git a/libs/egts/egts_sr_response.go b/libs/egts/egts_sr_response.go
index b9f193d..31b8921 100644
--- a/libs/egts/egts_sr_response.go
+++ b/libs/egts/egts_sr_response.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"fmt"
+	"io"
 )
 
 //SrResponse структура подзаписи типа EGTS_SR_RESPONSE, которая применяется для подтверждения
@@ -21,7 +22,7 @@ func (s *SrResponse) Decode(content []byte) error {
 	buf := bytes.NewBuffer(content)
 
 	tmpIntBuf := make([]byte, 2)
-	if _, err = buf.Read(tmpIntBuf); err != nil {
+	if _, err = io.ReadFull(buf, tmpIntBuf); err != nil {
 		return fmt.Errorf("Не удалось получить номер подтверждаемой записи: %v", err)
 	}
 	s.ConfirmedRecordNumber = binary.LittleEndian.Uint16(tmpIntBuf)
diff --git a/libs/egts/egts_sr_term_identity.go b/libs/egts/egts_sr_term_identity.go
index ad9b33f..19d4acd 100644
--- a/libs/egts/egts_sr_term_identity.go
+++ b/libs/egts/egts_sr_term_identity.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"fmt"
+	"io"
 	"strconv"
 )
 
@@ -37,7 +38,7 @@ func (e *SrTermIdentity) Decode(content []byte) error {
 	buf := bytes.NewReader(content)
 
 	tmpBuf := make([]byte, 4)
-	if _, err = buf.Read(tmpBuf); err != nil {
+	if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 		return fmt.Errorf("Не удалось получить идентификатор терминал при авторизации")
 	}
 	e.TerminalIdentifier = binary.LittleEndian.Uint32(tmpBuf)
@@ -57,7 +58,7 @@ func (e *SrTermIdentity) Decode(content []byte) error {
 
 	if e.HDIDE == "1" {
 		tmpBuf = make([]byte, 2)
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить идентификатор «домашней» телематической платформы при авторизации")
 		}
 		e.HomeDispatcherIdentifier = binary.LittleEndian.Uint16(tmpBuf)
@@ -66,7 +67,7 @@ func (e *SrTermIdentity) Decode(content []byte) error {
 
 	if e.IMEIE == "1" {
 		tmpBuf = make([]byte, 15)
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить IMEI при авторизации")
 		}
 		e.IMEI = string(tmpBuf)
@@ -74,7 +75,7 @@ func (e *SrTermIdentity) Decode(content []byte) error {
 
 	if e.IMSIE == "1" {
 		tmpBuf = make([]byte, 16)
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить IMSI при авторизации")
 		}
 		e.IMSI = string(tmpBuf)
@@ -82,7 +83,7 @@ func (e *SrTermIdentity) Decode(content []byte) error {
 
 	if e.LNGCE == "1" {
 		tmpBuf = make([]byte, 3)
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить код языка при авторизации")
 		}
 		e.LanguageCode = string(tmpBuf)
@@ -90,14 +91,14 @@ func (e *SrTermIdentity) Decode(content []byte) error {
 
 	if e.NIDE == "1" {
 		e.NetworkIdentifier = make([]byte, 3)
-		if _, err = buf.Read(e.NetworkIdentifier); err != nil {
+		if _, err = io.ReadFull(buf, e.NetworkIdentifier); err != nil {
 			return fmt.Errorf("Не удалось получить код идентификатор сети оператора при авторизации")
 		}
 	}
 
 	if e.BSE == "1" {
 		tmpBuf = make([]byte, 2)
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить максимальный размер буфера при авторизации")
 		}
 		e.BufferSize = binary.LittleEndian.Uint16(tmpBuf)
@@ -105,7 +106,7 @@ func (e *SrTermIdentity) Decode(content []byte) error {
 
 	if e.MNE == "1" {
 		tmpBuf = make([]byte, 15)
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить телефонный номер мобильного абонента")
 		}
 		e.MobileNumber = string(tmpBuf)
diff --git a/libs/egts/record_data.go b/libs/egts/record_data.go
index 51ecd9e..76ba14b 100644
--- a/libs/egts/record_data.go
+++ b/libs/egts/record_data.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"fmt"
+	"io"
 
 	log "github.com/sirupsen/logrus"
 )
@@ -31,11 +32,14 @@ func (rds *RecordDataSet) Decode(recDS []byte) error {
 		}
 
 		tmpIntBuf := make([]byte, 2)
-		if _, err = buf.Read(tmpIntBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpIntBuf); err != nil {
 			return fmt.Errorf("Не удалось получить длину записи subrecord data: %v", err)
 		}
 		rd.SubrecordLength = binary.LittleEndian.Uint16(tmpIntBuf)
 
+		if int(rd.SubrecordLength) > buf.Len() {
+			return fmt.Errorf("Некорректная длина подзаписи %d: %d", rd.SubrecordType, rd.SubrecordLength)
+		}
 		subRecordBytes := buf.Next(int(rd.SubrecordLength))
 
 		switch rd.SubrecordType {
diff --git a/libs/egts/service_data_records.go b/libs/egts/service_data_records.go
index 60ed468..e0bdaf0 100644
--- a/libs/egts/service_data_records.go
+++ b/libs/egts/service_data_records.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"fmt"
+	"io"
 	"strconv"
 	"time"
 )
@@ -45,12 +46,12 @@ func (s *ServiceDataSet) Decode(serviceDS []byte) error {
 	for buf.Len() > 0 {
 		sdr := ServiceDataRecord{}
 		tmpIntBuf := make([]byte, 2)
-		if _, err = buf.Read(tmpIntBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpIntBuf); err != nil {
 			return fmt.Errorf("не удалось получить длину записи SDR: %v", err)
 		}
 		sdr.RecordLength = binary.LittleEndian.Uint16(tmpIntBuf)
 
-		if _, err = buf.Read(tmpIntBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpIntBuf); err != nil {
 			return fmt.Errorf("не удалось получить номер записи SDR: %v", err)
 		}
 		sdr.RecordNumber = binary.LittleEndian.Uint16(tmpIntBuf)
@@ -69,7 +70,7 @@ func (s *ServiceDataSet) Decode(serviceDS []byte) error {
 
 		if sdr.ObjectIDFieldExists == "1" {
 			oid := make([]byte, 4)
-			if _, err := buf.Read(oid); err != nil {
+			if _, err := io.ReadFull(buf, oid); err != nil {
 				return fmt.Errorf("не удалось получить идентификатор объекта SDR: %v", err)
 			}
 			sdr.ObjectIdentifier = binary.LittleEndian.Uint32(oid)
@@ -77,7 +78,7 @@ func (s *ServiceDataSet) Decode(serviceDS []byte) error {
 
 		if sdr.EventIDFieldExists == "1" {
 			event := make([]byte, 4)
-			if _, err := buf.Read(event); err != nil {
+			if _, err := io.ReadFull(buf, event); err != nil {
 				return fmt.Errorf("не удалось получить идентификатор события SDR: %v", err)
 			}
 			sdr.EventIdentifier = binary.LittleEndian.Uint32(event)
@@ -86,7 +87,7 @@ func (s *ServiceDataSet) Decode(serviceDS []byte) error {
 		// Преобразуем время навигации к формату, который требует стандарт: количество секунд с 00:00:00 01.01.2010 UTC
 		if sdr.TimeFieldExists == "1" {
 			tm := make([]byte, 4)
-			if _, err := buf.Read(tm); err != nil {
+			if _, err := io.ReadFull(buf, tm); err != nil {
 				return fmt.Errorf("не удалось получить время формирования записи на стороне отправителя SDR: %v", err)
 			}
 			preFieldVal := binary.LittleEndian.Uint32(tm)
@@ -104,7 +105,7 @@ func (s *ServiceDataSet) Decode(serviceDS []byte) error {
 		if buf.Len() != 0 {
 			rds := RecordDataSet{}
 			rdsBytes := make([]byte, sdr.RecordLength)
-			if _, err = buf.Read(rdsBytes); err != nil {
+			if _, err = io.ReadFull(buf, rdsBytes); err != nil {
 				return err
 			}
 
-- 
2.43.0


From d3f7fa5d8ed6bbebc71980f212af8af6de43ea3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:34 +0000
Subject: [PATCH 05/32] fix: decode the second counter of COUNTERS_DATA into
 its own field

CN2 overwrote CN1 and was itself always reported as zero.
---
 libs/egts/egts_sr_counters_data.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/egts/egts_sr_counters_data.go b/libs/egts/egts_sr_counters_data.go
index b8128d4..1aa445a 100644
--- a/libs/egts/egts_sr_counters_data.go
+++ b/libs/egts/egts_sr_counters_data.go
@@ -66,7 +66,7 @@ func (c *SrCountersData) Decode(content []byte) error {
 			return fmt.Errorf("Не удалось получить показания CN2: %v", err)
 		}
 		counterVal = append(tmpBuf, 0x00)
-		c.Counter1 = binary.LittleEndian.Uint32(counterVal)
+		c.Counter2 = binary.LittleEndian.Uint32(counterVal)
 	}
 
 	if c.CounterFieldExists3 == "1" {
-- 
2.43.0


From 011ed576ef11e675c2cbb533d78823e06b065a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:38 +0000
Subject: [PATCH 06/32] fix: encode the AD_SENSORS_DATA analog flags in the
 order they are decoded

ASFE1..ASFE8 were written in reverse bit order, so a partial set of analog
sensors was read back under the wrong numbers.
---
 libs/egts/egts_sr_ad_sensors_data.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/libs/egts/egts_sr_ad_sensors_data.go b/libs/egts/egts_sr_ad_sensors_data.go
index be70056..631cae4 100644
--- a/libs/egts/egts_sr_ad_sensors_data.go
+++ b/libs/egts/egts_sr_ad_sensors_data.go
@@ -235,14 +235,14 @@ func (e *SrAdSensorsData) Encode() ([]byte, error) {
 		return result, fmt.Errorf("Не удалось записать битовые флаги дискретных выходов: %v", err)
 	}
 
-	flagsBits = e.AnalogSensorFieldExists1 +
-		e.AnalogSensorFieldExists2 +
-		e.AnalogSensorFieldExists3 +
-		e.AnalogSensorFieldExists4 +
-		e.AnalogSensorFieldExists5 +
-		e.AnalogSensorFieldExists6 +
+	flagsBits = e.AnalogSensorFieldExists8 +
 		e.AnalogSensorFieldExists7 +
-		e.AnalogSensorFieldExists8
+		e.AnalogSensorFieldExists6 +
+		e.AnalogSensorFieldExists5 +
+		e.AnalogSensorFieldExists4 +
+		e.AnalogSensorFieldExists3 +
+		e.AnalogSensorFieldExists2 +
+		e.AnalogSensorFieldExists1
 
 	if flags, err = strconv.ParseUint(flagsBits, 2, 8); err != nil {
 		return result, fmt.Errorf("Не удалось сгенерировать байт байт аналоговых выходов ad_sesor_data: %v", err)
-- 
2.43.0


From b3e64c6c14da31bccf05b1de22fe718ae8280344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:42 +0000
Subject: [PATCH 07/32] fix: do not shift coordinates when a decoded position
 is encoded again

The float conversion was truncated, so about one coordinate in seven lost a unit
on every decode/encode cycle.
---
 libs/egts/egts_sr_pos_data.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/libs/egts/egts_sr_pos_data.go b/libs/egts/egts_sr_pos_data.go
index 83bf2a4..9289e36 100644
--- a/libs/egts/egts_sr_pos_data.go
+++ b/libs/egts/egts_sr_pos_data.go
@@ -5,6 +5,7 @@ import (
 	"encoding/binary"
 	"fmt"
 	"io"
+	"math"
 	"strconv"
 	"time"
 )
@@ -146,12 +147,12 @@ func (e *SrPosData) Encode() ([]byte, error) {
 	}
 
 	// В протоколе значение хранится в виде: широта по модулю, градусы/90*0xFFFFFFFF  и взята целая часть
-	if err = binary.Write(buf, binary.LittleEndian, uint32(e.Latitude/90*0xFFFFFFFF)); err != nil {
+	if err = binary.Write(buf, binary.LittleEndian, uint32(math.Round(e.Latitude/90*0xFFFFFFFF))); err != nil {
 		return result, fmt.Errorf("Не удалось записать широту: %v", err)
 	}
 
 	// В протоколе значение хранится в виде: долгота по модулю, градусы/180*0xFFFFFFFF  и взята целая часть
-	if err = binary.Write(buf, binary.LittleEndian, uint32(e.Longitude/180*0xFFFFFFFF)); err != nil {
+	if err = binary.Write(buf, binary.LittleEndian, uint32(math.Round(e.Longitude/180*0xFFFFFFFF))); err != nil {
 		return result, fmt.Errorf("Не удалось записать долготу: %v", err)
 	}
 
-- 
2.43.0


From 8eebb5b2176ba927f545eb0698e9e2e44d95f05b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:12 +0000
Subject: [PATCH 08/32] fix: write the actual lengths of header, records and
 subrecords when encoding

Lengths left over from decoding (POS_DATA with SRCD, skipped subrecords) or set by
the caller were written even when they contradicted the encoded bytes, and data
over 65535 bytes wrapped the length field; the result could not be decoded.
---
 libs/egts/egts_pkg.go             | 12 +++++++-----
 libs/egts/record_data.go          | 13 +++++++------
 libs/egts/service_data_records.go |  6 ++++--
 3 files changed, 18 insertions(+), 13 deletions(-)

diff --git a/libs/egts/egts_pkg.go b/libs/egts/egts_pkg.go
index 87f27ef..58c4028 100644
--- a/libs/egts/egts_pkg.go
+++ b/libs/egts/egts_pkg.go
@@ -6,6 +6,7 @@ import (
 	"encoding/json"
 	"fmt"
 	"io"
+	"math"
 	"strconv"
 )
 
@@ -209,11 +210,9 @@ func (p *Package) Encode(opt ...func(*Options)) ([]byte, error) {
 		return result, fmt.Errorf("Не удалось записать флаги: %v", err)
 	}
 
-	if p.HeaderLength == 0 {
-		p.HeaderLength = DEFAULT_HEADER_LEN
-		if p.Route == "1" {
-			p.HeaderLength += 5
-		}
+	p.HeaderLength = DEFAULT_HEADER_LEN
+	if p.Route == "1" {
+		p.HeaderLength += 5
 	}
 
 	if err = buf.WriteByte(p.HeaderLength); err != nil {
@@ -241,6 +240,9 @@ func (p *Package) Encode(opt ...func(*Options)) ([]byte, error) {
 			}
 		}
 	}
+	if len(sfrd) > math.MaxUint16 {
+		return result, fmt.Errorf("Превышена максимальная длина секции данных: %d", len(sfrd))
+	}
 	p.FrameDataLength = uint16(len(sfrd))
 	if err = binary.Write(buf, binary.LittleEndian, p.FrameDataLength); err != nil {
 		return result, fmt.Errorf("Не удалось записать длину секции данных: %v", err)
diff --git a/libs/egts/record_data.go b/libs/egts/record_data.go
index 76ba14b..4c89c9b 100644
--- a/libs/egts/record_data.go
+++ b/libs/egts/record_data.go
@@ -5,6 +5,7 @@ import (
 	"encoding/binary"
 	"fmt"
 	"io"
+	"math"
 
 	log "github.com/sirupsen/logrus"
 )
@@ -142,15 +143,15 @@ func (rds *RecordDataSet) Encode() ([]byte, error) {
 			return result, err
 		}
 
-		if rd.SubrecordLength == 0 {
-			rd.SubrecordLength = rd.SubrecordData.Length()
-		}
-		if err := binary.Write(buf, binary.LittleEndian, rd.SubrecordLength); err != nil {
+		srd, err := rd.SubrecordData.Encode()
+		if err != nil {
 			return result, err
 		}
+		if len(srd) > math.MaxUint16 {
+			return result, fmt.Errorf("превышена максимальная длина подзаписи: %d", len(srd))
+		}
 
-		srd, err := rd.SubrecordData.Encode()
-		if err != nil {
+		if err := binary.Write(buf, binary.LittleEndian, uint16(len(srd))); err != nil {
 			return result, err
 		}
 		buf.Write(srd)
diff --git a/libs/egts/service_data_records.go b/libs/egts/service_data_records.go
index e0bdaf0..11b5c98 100644
--- a/libs/egts/service_data_records.go
+++ b/libs/egts/service_data_records.go
@@ -5,6 +5,7 @@ import (
 	"encoding/binary"
 	"fmt"
 	"io"
+	"math"
 	"strconv"
 	"time"
 )
@@ -135,9 +136,10 @@ func (s *ServiceDataSet) Encode() ([]byte, error) {
 			return result, err
 		}
 
-		if sdr.RecordLength == 0 {
-			sdr.RecordLength = uint16(len(rd))
+		if len(rd) > math.MaxUint16 {
+			return result, fmt.Errorf("превышена максимальная длина записи SDR: %d", len(rd))
 		}
+		sdr.RecordLength = uint16(len(rd))
 		if err = binary.Write(buf, binary.LittleEndian, sdr.RecordLength); err != nil {
 			return result, fmt.Errorf("не удалось записать длину записи SDR: %v", err)
 		}
-- 
2.43.0


From 4101a2f3285970cb303567299ba9fc2510992a35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:16 +0000
Subject: [PATCH 09/32] fix: derive the subrecord type of MODULE_DATA and
 DISPATCHER_IDENTITY when encoding

---
 libs/egts/record_data.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libs/egts/record_data.go b/libs/egts/record_data.go
index 4c89c9b..dbd8260 100644
--- a/libs/egts/record_data.go
+++ b/libs/egts/record_data.go
@@ -134,6 +134,10 @@ func (rds *RecordDataSet) Encode() ([]byte, error) {
 				rd.SubrecordType = SrEgtsPlusDataType
 			case *SrAbsAnSensData:
 				rd.SubrecordType = SrAbsAnSensDataType
+			case *SrModuleData:
+				rd.SubrecordType = SrModuleDataType
+			case *SrDispatcherIdentity:
+				rd.SubrecordType = SrDispatcherIdentityType
 			default:
 				return result, fmt.Errorf("не известен код для данного типа подзаписи")
 			}
-- 
2.43.0


From 431c8ba9d320d3d38200a5857c4dea2f35869277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:21 +0000
Subject: [PATCH 10/32] fix: report invalid TERM_IDENTITY flags instead of
 encoding them as zero

---
 libs/egts/egts_sr_term_identity.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libs/egts/egts_sr_term_identity.go b/libs/egts/egts_sr_term_identity.go
index 19d4acd..2af38ec 100644
--- a/libs/egts/egts_sr_term_identity.go
+++ b/libs/egts/egts_sr_term_identity.go
@@ -129,6 +129,10 @@ func (e *SrTermIdentity) Encode() ([]byte, error) {
 	}
 
 	flags, err = strconv.ParseUint(e.MNE+e.BSE+e.NIDE+e.SSRA+e.LNGCE+e.IMSIE+e.IMEIE+e.HDIDE, 2, 8)
+	if err != nil {
+		return result, fmt.Errorf("Не удалось сгенерировать байт флагов term identify: %v", err)
+	}
+
 	if err = buf.WriteByte(uint8(flags)); err != nil {
 		return result, fmt.Errorf("Не удалось записать байт флагов term identify: %v", err)
 	}
-- 
2.43.0


From 0ed35565e46eb8a04d10f1119ee5924613c50e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:53 +0000
Subject: [PATCH 11/32] fix: close the connection on an impossible header
 length

HL below 10 underflowed the uint16 body length, so the receiver silently swallowed
the next 64 KB of the stream as the body of the broken packet.
---
 cli/receiver/server/server.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/cli/receiver/server/server.go b/cli/receiver/server/server.go
index 49f30c7..633a119 100644
--- a/cli/receiver/server/server.go
+++ b/cli/receiver/server/server.go
@@ -93,9 +93,13 @@ func (s *Server) handleConn(conn net.Conn) {
 
 			// вычисляем длину пакета, равную длине заголовка (HL) + длина тела (FDL) + CRC пакета 2 байта если есть FDL из приказа минтранса №285
 			bodyLen := binary.LittleEndian.Uint16(headerBuf[5:7])
-			pkgLen := uint16(headerBuf[3])
+			pkgLen := int(headerBuf[3])
+			if pkgLen < headerLen {
+				log.WithField("ip", conn.RemoteAddr()).Warn("Некорректная длина заголовка пакета. Закрыто соединение")
+				return
+			}
 			if bodyLen > 0 {
-				pkgLen += bodyLen + 2
+				pkgLen += int(bodyLen) + 2
 			}
 			// получаем концовку ЕГТС пакета
 			buf := make([]byte, pkgLen-headerLen)
-- 
2.43.0


From 637e968f7a3bb527b4369bbb21681d17dda9676b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:27 +0000
Subject: [PATCH 12/32] fix: close connections that stay silent longer than
 conn_ttl

The timer was armed but only awaited after the peer had already closed, so an idle
connection was never closed and a finished one was kept for the whole ttl.
---
 cli/receiver/server/server.go | 32 ++++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/cli/receiver/server/server.go b/cli/receiver/server/server.go
index 633a119..bc47d3b 100644
--- a/cli/receiver/server/server.go
+++ b/cli/receiver/server/server.go
@@ -50,6 +50,21 @@ func (s *Server) Stop() error {
 	return nil
 }
 
+// idleReader читает из соединения, прерывая ожидание, если данных не было дольше ttl
+type idleReader struct {
+	conn net.Conn
+	ttl  time.Duration
+}
+
+func (r idleReader) Read(b []byte) (int, error) {
+	if r.ttl > 0 {
+		if err := r.conn.SetReadDeadline(time.Now().Add(r.ttl)); err != nil {
+			return 0, err
+		}
+	}
+	return r.conn.Read(b)
+}
+
 func (s *Server) handleConn(conn net.Conn) {
 	defer conn.Close()
 
@@ -68,6 +83,8 @@ func (s *Server) handleConn(conn net.Conn) {
 	}
 	log.WithField("ip", conn.RemoteAddr()).Info("Установлено соединение")
 
+	in := idleReader{conn: conn, ttl: s.ttl}
+
 	for {
 	Received:
 		serviceType = 0
@@ -75,16 +92,12 @@ func (s *Server) handleConn(conn net.Conn) {
 		srResultCodePkg = nil
 		recvPacket = nil
 
-		connTimer := time.NewTimer(s.ttl)
-
 		// считываем заголовок пакета
 		headerBuf := make([]byte, headerLen)
-		_, err := io.ReadFull(conn, headerBuf)
+		_, err := io.ReadFull(in, headerBuf)
 
 		switch err {
 		case nil:
-			connTimer.Reset(s.ttl)
-
 			// если пакет не егтс формата закрываем соединение
 			if headerBuf[0] != 0x01 {
 				log.WithField("ip", conn.RemoteAddr()).Warn("Пакет не соответствует формату ЕГТС. Закрыто соединение")
@@ -103,7 +116,7 @@ func (s *Server) handleConn(conn net.Conn) {
 			}
 			// получаем концовку ЕГТС пакета
 			buf := make([]byte, pkgLen-headerLen)
-			if _, err := io.ReadFull(conn, buf); err != nil {
+			if _, err := io.ReadFull(in, buf); err != nil {
 				log.WithField("err", err).Error("Ошибка при получении тела пакета")
 				return
 			}
@@ -111,10 +124,13 @@ func (s *Server) handleConn(conn net.Conn) {
 			// формируем полный пакет
 			recvPacket = append(headerBuf, buf...)
 		case io.EOF:
-			<-connTimer.C
-			log.WithField("ip", conn.RemoteAddr()).Warnf("Соединение закрыто по таймауту")
+			log.WithField("ip", conn.RemoteAddr()).Info("Соединение закрыто клиентом")
 			return
 		default:
+			if netErr, ok := err.(net.Error); ok && netErr.Timeout() {
+				log.WithField("ip", conn.RemoteAddr()).Warnf("Соединение закрыто по таймауту")
+				return
+			}
 			log.WithField("err", err).Error("Ошибка при получении")
 			return
 		}
-- 
2.43.0


From d04cc69f3655a856683adda5348c0a7ed14d392b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:31 +0000
Subject: [PATCH 13/32] fix: let Stop end Run

After Stop closed the listener, Run kept calling Accept and logged the same error
in an endless busy loop; the listener was also shared without synchronisation.
---
 cli/receiver/server/server.go | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/cli/receiver/server/server.go b/cli/receiver/server/server.go
index bc47d3b..e5ebb36 100644
--- a/cli/receiver/server/server.go
+++ b/cli/receiver/server/server.go
@@ -2,11 +2,13 @@ package server
 
 import (
 	"encoding/binary"
+	"errors"
 	"github.com/kuznetsovin/egts-protocol/cli/receiver/storage"
 	"github.com/kuznetsovin/egts-protocol/libs/egts"
 	log "github.com/sirupsen/logrus"
 	"io"
 	"net"
+	"sync"
 	"time"
 )
 
@@ -19,21 +21,27 @@ type Server struct {
 	addr  string
 	ttl   time.Duration
 	store *storage.Repository
+	mu    sync.Mutex
 	l     net.Listener
 }
 
 func (s *Server) Run() {
-	var err error
-
-	s.l, err = net.Listen("tcp", s.addr)
+	l, err := net.Listen("tcp", s.addr)
 	if err != nil {
 		log.Fatalf("Не удалось открыть соединение: %v", err)
 	}
-	defer s.l.Close()
+	defer l.Close()
+
+	s.mu.Lock()
+	s.l = l
+	s.mu.Unlock()
 
 	log.Infof("Запущен сервер %s...", s.addr)
 	for {
-		conn, err := s.l.Accept()
+		conn, err := l.Accept()
+		if errors.Is(err, net.ErrClosed) {
+			return
+		}
 		if err != nil {
 			log.WithField("err", err).Errorf("Ошибка соединения")
 		} else {
@@ -43,6 +51,9 @@ func (s *Server) Run() {
 }
 
 func (s *Server) Stop() error {
+	s.mu.Lock()
+	defer s.mu.Unlock()
+
 	if s.l != nil {
 		return s.l.Close()
 	}
-- 
2.43.0


From 581569cc6f40cb4385dd8cdaf531f60ec29fc3d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:59 +0000
Subject: [PATCH 14/32] fix: assemble the record number from counters 110 and
 111 in one byte order

The three low bytes were stored big-endian and the result read little-endian, so
the low byte was overwritten and the two others swapped as soon as counter 111 was
present; 110 after 111 dropped the high byte.
---
 cli/receiver/server/server.go | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/cli/receiver/server/server.go b/cli/receiver/server/server.go
index e5ebb36..1877560 100644
--- a/cli/receiver/server/server.go
+++ b/cli/receiver/server/server.go
@@ -266,18 +266,14 @@ func (s *Server) handleConn(conn net.Conn) {
 						switch subRecData.CounterNumber {
 						case 110:
 							// Три младших байта номера передаваемой записи (идет вместе с каждой POS_DATA).
-							binary.BigEndian.PutUint32(packetIDBytes, subRecData.CounterValue)
-							exportPacket.PacketID = subRecData.CounterValue
-						case 111:
-							// один старший байт номера передаваемой записи (идет вместе с каждой POS_DATA).
 							tmpBuf := make([]byte, 4)
-							binary.BigEndian.PutUint32(tmpBuf, subRecData.CounterValue)
+							binary.LittleEndian.PutUint32(tmpBuf, subRecData.CounterValue)
+							copy(packetIDBytes[:3], tmpBuf)
 
-							if len(packetIDBytes) == 4 {
-								packetIDBytes[3] = tmpBuf[3]
-							} else {
-								packetIDBytes = tmpBuf
-							}
+							exportPacket.PacketID = binary.LittleEndian.Uint32(packetIDBytes)
+						case 111:
+							// один старший байт номера передаваемой записи (идет вместе с каждой POS_DATA).
+							packetIDBytes[3] = byte(subRecData.CounterValue)
 
 							exportPacket.PacketID = binary.LittleEndian.Uint32(packetIDBytes)
 						}
-- 
2.43.0


From b409efa9cdab51b3309dff143c55b6bb7cfa15c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:02 +0000
Subject: [PATCH 15/32] fix: keep the hemisphere of the stored position

The wire carries coordinates as absolute values plus hemisphere flags; the flags
were dropped, so southern and western positions were stored mirrored.
---
 cli/receiver/server/server.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/cli/receiver/server/server.go b/cli/receiver/server/server.go
index 1877560..3d5e607 100644
--- a/cli/receiver/server/server.go
+++ b/cli/receiver/server/server.go
@@ -218,6 +218,13 @@ func (s *Server) handleConn(conn net.Conn) {
 						exportPacket.ReceivedTimestamp = receivedTimestamp
 						exportPacket.Latitude = subRecData.Latitude
 						exportPacket.Longitude = subRecData.Longitude
+						// координаты передаются по модулю, полушарие задается флагами
+						if subRecData.LAHS == "1" {
+							exportPacket.Latitude = -exportPacket.Latitude
+						}
+						if subRecData.LOHS == "1" {
+							exportPacket.Longitude = -exportPacket.Longitude
+						}
 						exportPacket.Speed = subRecData.Speed
 						exportPacket.Course = subRecData.Direction
 					case *egts.SrExtPosData:
-- 
2.43.0


From 4ae9ff982eadd6fd39aff359da4d870a34a274ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:06 +0000
Subject: [PATCH 16/32] fix: store courses of 256 degrees and more

The ninth bit of the course was folded into bit 7 of a byte, so 300 degrees was
stored as 172.
---
 cli/receiver/server/server.go  | 4 +++-
 cli/receiver/storage/packet.go | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/cli/receiver/server/server.go b/cli/receiver/server/server.go
index 3d5e607..16d838e 100644
--- a/cli/receiver/server/server.go
+++ b/cli/receiver/server/server.go
@@ -226,7 +226,9 @@ func (s *Server) handleConn(conn net.Conn) {
 							exportPacket.Longitude = -exportPacket.Longitude
 						}
 						exportPacket.Speed = subRecData.Speed
-						exportPacket.Course = subRecData.Direction
+						// старший (девятый) бит направления передается отдельно
+						dirHigh := subRecData.DirectionHighestBit
+						exportPacket.Course = uint16(dirHigh)<<8 | uint16(subRecData.Direction&^(dirHigh<<7))
 					case *egts.SrExtPosData:
 						log.Debug("Разбор подзаписи EGTS_SR_EXT_POS_DATA")
 						exportPacket.Nsat = subRecData.Satellites
diff --git a/cli/receiver/storage/packet.go b/cli/receiver/storage/packet.go
index 48ea5c6..4ef32ed 100644
--- a/cli/receiver/storage/packet.go
+++ b/cli/receiver/storage/packet.go
@@ -17,7 +17,7 @@ type NavRecord struct {
 	Vdop                uint16         `json:"vdop"`
 	Nsat                uint8          `json:"nsat"`
 	Ns                  uint16         `json:"ns"`
-	Course              uint8          `json:"course"`
+	Course              uint16         `json:"course"`
 	AnSensors           []AnSensor     `json:"an_sensors"`
 	LiquidSensors       []LiquidSensor `json:"liquid_sensors"`
 }
-- 
2.43.0


From 5b12fd9361067ab0bf6f91362e53e583e29d7c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:41 +0000
Subject: [PATCH 17/32] fix: send EGTS_SR_RESULT_CODE in an APPDATA packet

The packet was marked EGTS_PT_RESPONSE but carried a service record without the
response packet id and result, so its content could not be decoded.
---
 cli/receiver/server/server.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/receiver/server/server.go b/cli/receiver/server/server.go
index 16d838e..b467d52 100644
--- a/cli/receiver/server/server.go
+++ b/cli/receiver/server/server.go
@@ -424,7 +424,7 @@ func createSrResultCode(pid uint16, resultCode uint8) ([]byte, error) {
 		HeaderEncoding:    0,
 		FrameDataLength:   sfd.Length(),
 		PacketIdentifier:  pid + 1,
-		PacketType:        egts.PtResponsePacket,
+		PacketType:        egts.PtAppdataPacket,
 		ServicesFrameData: &sfd,
 	}
 
-- 
2.43.0


From 4bf91153283908761cb9f2875f353acf56ced970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:45 +0000
Subject: [PATCH 18/32] fix: a failing storage no longer keeps the record from
 the remaining ones

---
 cli/receiver/storage/store.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/cli/receiver/storage/store.go b/cli/receiver/storage/store.go
index aac933e..2ecb7ce 100644
--- a/cli/receiver/storage/store.go
+++ b/cli/receiver/storage/store.go
@@ -46,12 +46,13 @@ func (r *Repository) AddStore(s Saver) {
 
 //Save сохраняет данные во все установленные хранилища
 func (r *Repository) Save(m interface{ ToBytes() ([]byte, error) }) error {
+	var result error
 	for _, store := range r.storages {
-		if err := store.Save(m); err != nil {
-			return err
+		if err := store.Save(m); err != nil && result == nil {
+			result = err
 		}
 	}
-	return nil
+	return result
 }
 
 //LoadStorages загружает хранилища из структуры конфига
-- 
2.43.0


From 3ae887c20af644ba10c07e4e5c2c1db70da55de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:48 +0000
Subject: [PATCH 19/32] fix: use redis database 0 when db is not configured

The presence flag of another key was tested, so an omitted db was an error.
---
 cli/receiver/storage/store/redis/connector.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/receiver/storage/store/redis/connector.go b/cli/receiver/storage/store/redis/connector.go
index 70c75b1..b050cf4 100644
--- a/cli/receiver/storage/store/redis/connector.go
+++ b/cli/receiver/storage/store/redis/connector.go
@@ -39,7 +39,7 @@ func (c *Connector) Init(cfg map[string]string) error {
 		return fmt.Errorf("не задан адрес redis сервера")
 	}
 
-	configDb, _ := c.config["db"]
+	configDb, ok := c.config["db"]
 	if !ok {
 		configDb = "0"
 	}
-- 
2.43.0


From 4a423c9b9b48786cfd9200b3c6e11a119260c1c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:32 +0000
Subject: [PATCH 20/32] fix: process the other records of a packet that also
 carries confirmations

A single EGTS_SR_RECORD_RESPONSE subrecord dropped all remaining records of its
packet, unsaved and unacknowledged.
---
 cli/receiver/server/server.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/cli/receiver/server/server.go b/cli/receiver/server/server.go
index b467d52..f27b3f8 100644
--- a/cli/receiver/server/server.go
+++ b/cli/receiver/server/server.go
@@ -81,6 +81,7 @@ func (s *Server) handleConn(conn net.Conn) {
 
 	var (
 		isPkgSave         bool
+		isConfirmPkg      bool
 		srResultCodePkg   []byte
 		serviceType       uint8
 		srResponsesRecord egts.RecordDataSet
@@ -99,6 +100,7 @@ func (s *Server) handleConn(conn net.Conn) {
 	for {
 	Received:
 		serviceType = 0
+		isConfirmPkg = false
 		srResponsesRecord = nil
 		srResultCodePkg = nil
 		recvPacket = nil
@@ -173,6 +175,7 @@ func (s *Server) handleConn(conn net.Conn) {
 				}
 
 				isPkgSave = false
+				confirmations := 0
 				packetIDBytes := make([]byte, 4)
 
 				srResponsesRecord = append(srResponsesRecord, egts.RecordData{
@@ -209,7 +212,7 @@ func (s *Server) handleConn(conn net.Conn) {
 						}
 					case *egts.SrResponse:
 						log.Debugf("Разбор подзаписи EGTS_SR_RESPONSE")
-						goto Received
+						confirmations++
 					case *egts.SrPosData:
 						log.Debugf("Разбор подзаписи EGTS_SR_POS_DATA")
 						isPkgSave = true
@@ -304,6 +307,14 @@ func (s *Server) handleConn(conn net.Conn) {
 					}
 				}
 
+				// запись, состоящая только из подтверждений, сама подтверждения не требует
+				if confirmations > 0 && confirmations == len(rec.RecordDataSet) {
+					srResponsesRecord = srResponsesRecord[:len(srResponsesRecord)-1]
+					isConfirmPkg = len(srResponsesRecord) == 0
+					continue
+				}
+				isConfirmPkg = false
+
 				exportPacket.Client = client
 				if isPkgSave {
 					if err := s.store.Save(&exportPacket); err != nil {
@@ -312,6 +323,10 @@ func (s *Server) handleConn(conn net.Conn) {
 				}
 			}
 
+			if isConfirmPkg {
+				goto Received
+			}
+
 			resp, err := createPtResponse(pkg.PacketIdentifier, resultCode, serviceType, srResponsesRecord)
 			if err != nil {
 				log.WithField("err", err).Error("Ошибка сборки ответа")
-- 
2.43.0


From 4e7c9ff10552f24c269ee9c6fd52957d45e981db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:06 +0000
Subject: [PATCH 21/32] fix: do not confirm a record that could not be saved

The record status was OK even when the storage had refused the record, so the
terminal never sent it again.
---
 cli/receiver/server/server.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/cli/receiver/server/server.go b/cli/receiver/server/server.go
index f27b3f8..5f2b711 100644
--- a/cli/receiver/server/server.go
+++ b/cli/receiver/server/server.go
@@ -13,8 +13,9 @@ import (
 )
 
 const (
-	egtsPcOk  = 0
-	headerLen = 10
+	egtsPcOk      = 0
+	egtsPcIoError = 155
+	headerLen     = 10
 )
 
 type Server struct {
@@ -319,6 +320,12 @@ func (s *Server) handleConn(conn net.Conn) {
 				if isPkgSave {
 					if err := s.store.Save(&exportPacket); err != nil {
 						log.WithField("err", err).Error("Ошибка сохранения телеметрии")
+
+						// запись не сохранена, поэтому подтверждать ее успешной обработкой нельзя
+						srResponsesRecord[len(srResponsesRecord)-1].SubrecordData = &egts.SrResponse{
+							ConfirmedRecordNumber: rec.RecordNumber,
+							RecordStatus:          egtsPcIoError,
+						}
 					}
 				}
 			}
-- 
2.43.0


From 0492b4662c45cf1872f5301ad6e5d8a7b7551f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:38 +0000
Subject: [PATCH 22/32] fix: packet-gen sends the time it was given

The -time value was validated and then ignored in favour of a fixed date.
---
 cli/packet-gen/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/packet-gen/main.go b/cli/packet-gen/main.go
index 75f10ca..ede9a78 100644
--- a/cli/packet-gen/main.go
+++ b/cli/packet-gen/main.go
@@ -113,7 +113,7 @@ func main() {
 					egts.RecordData{
 						SubrecordType: 16,
 						SubrecordData: &egts.SrPosData{
-							NavigationTime:      time.Date(2021, time.February, 20, 0, 30, 40, 0, time.UTC),
+							NavigationTime:      timestamp.UTC(),
 							Latitude:            lat,
 							Longitude:           lon,
 							ALTE:                "1",
-- 
2.43.0


From 152226ac0b848aa49e71a8191a213264d1240427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:39 +0000
Subject: [PATCH 23/32] fix: packet-gen exits with 0 when the packet was
 processed

---
 cli/packet-gen/main.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/cli/packet-gen/main.go b/cli/packet-gen/main.go
index ede9a78..3ef1dd6 100644
--- a/cli/packet-gen/main.go
+++ b/cli/packet-gen/main.go
@@ -221,5 +221,4 @@ func main() {
 	}
 
 	fmt.Println("Packet sent and processed correct")
-	os.Exit(1)
 }
-- 
2.43.0


From f22293d234caa6f12b40260c0e2c0e68bc2291dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:39 +0000
Subject: [PATCH 24/32] fix: packet-gen waits 5 seconds for the ack by default,
 as documented

The default of 0 seconds made every read of the ack fail at once.
---
 cli/packet-gen/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/packet-gen/main.go b/cli/packet-gen/main.go
index 3ef1dd6..672765f 100644
--- a/cli/packet-gen/main.go
+++ b/cli/packet-gen/main.go
@@ -58,7 +58,7 @@ func main() {
 	flag.IntVar(&liqLvl, "liquid", 0, "Liquid level for first sensor")
 	flag.Float64Var(&lat, "lat", 0, "Latitude")
 	flag.Float64Var(&lon, "lon", 0, "Longitude")
-	flag.IntVar(&ackTimeout, "timeout", 0, "Ack waiting time in seconds, Default: 5")
+	flag.IntVar(&ackTimeout, "timeout", 5, "Ack waiting time in seconds, Default: 5")
 	flag.StringVar(&server, "server", "localhost:5555", "Egts server address in format <ip>:<port>")
 
 	flag.Parse()
-- 
2.43.0


From 7f6d3ebf8c2bab9e4ce8995b03d89eedf2dcdd64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:40 +0000
Subject: [PATCH 25/32] fix: packet-gen encodes southern and western
 coordinates

---
 cli/packet-gen/main.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/cli/packet-gen/main.go b/cli/packet-gen/main.go
index 672765f..c6eca1c 100644
--- a/cli/packet-gen/main.go
+++ b/cli/packet-gen/main.go
@@ -83,6 +83,15 @@ func main() {
 		os.Exit(1)
 	}
 
+	// coordinates are sent as absolute values, the flags name the hemisphere
+	lahs, lohs := "0", "0"
+	if lat < 0 {
+		lat, lahs = -lat, "1"
+	}
+	if lon < 0 {
+		lon, lohs = -lon, "1"
+	}
+
 	egtsSendPacket := egts.Package{
 		ProtocolVersion:  1,
 		SecurityKeyID:    0,
@@ -117,8 +126,8 @@ func main() {
 							Latitude:            lat,
 							Longitude:           lon,
 							ALTE:                "1",
-							LOHS:                "0",
-							LAHS:                "0",
+							LOHS:                lohs,
+							LAHS:                lahs,
 							MV:                  "1",
 							BB:                  "1",
 							CS:                  "0",
-- 
2.43.0


From 0cc7d0f8fec9d3024a4ea22a0bd38ab055c723c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:40 +0000
Subject: [PATCH 26/32] fix: packet-gen accepts an ack without record
 confirmations instead of panicking

---
 cli/packet-gen/main.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cli/packet-gen/main.go b/cli/packet-gen/main.go
index c6eca1c..8502d1e 100644
--- a/cli/packet-gen/main.go
+++ b/cli/packet-gen/main.go
@@ -216,7 +216,11 @@ func main() {
 		os.Exit(1)
 	}
 
-	for _, rec := range *ack.SDR.(*egts.ServiceDataSet) {
+	sdr, ok := ack.SDR.(*egts.ServiceDataSet)
+	if !ok {
+		sdr = &egts.ServiceDataSet{}
+	}
+	for _, rec := range *sdr {
 		for _, subRec := range rec.RecordDataSet {
 			if subRec.SubrecordType == egts.SrRecordResponseType {
 				if response, ok := subRec.SubrecordData.(*egts.SrResponse); ok {
-- 
2.43.0


From 3127a2ae1196d3be47f909a94d19de1fa7c883e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:41 +0000
Subject: [PATCH 27/32] fix: packet-gen reads the whole ack, however it arrives

A single read took a split ack for a broken one, and several packets for one.
---
 cli/packet-gen/main.go | 33 +++++++++++++++++++++++++++++----
 1 file changed, 29 insertions(+), 4 deletions(-)

diff --git a/cli/packet-gen/main.go b/cli/packet-gen/main.go
index 8502d1e..f555479 100644
--- a/cli/packet-gen/main.go
+++ b/cli/packet-gen/main.go
@@ -1,9 +1,11 @@
 package main
 
 import (
+	"encoding/binary"
 	"flag"
 	"fmt"
 	"github.com/kuznetsovin/egts-protocol/libs/egts"
+	"io"
 	"net"
 	"os"
 	"time"
@@ -183,17 +185,15 @@ func main() {
 		os.Exit(1)
 	}
 
-	ackBuf := make([]byte, 1024)
-
 	_ = conn.SetReadDeadline(time.Now().Add(time.Duration(ackTimeout) * time.Second))
-	ackLen, err := conn.Read(ackBuf)
+	ackBuf, err := readPacket(conn)
 	if err != nil {
 		fmt.Println("Read from server failed:", err)
 		os.Exit(1)
 	}
 
 	ackPacket := egts.Package{}
-	_, err = ackPacket.Decode(ackBuf[:ackLen])
+	_, err = ackPacket.Decode(ackBuf)
 	if err != nil {
 		fmt.Println("Parse ack packet failed:", err)
 		os.Exit(1)
@@ -235,3 +235,28 @@ func main() {
 
 	fmt.Println("Packet sent and processed correct")
 }
+
+// readPacket reads one whole packet, however the network splits it
+func readPacket(r io.Reader) ([]byte, error) {
+	const minHeaderLen = 10
+
+	packet := make([]byte, minHeaderLen)
+	if _, err := io.ReadFull(r, packet); err != nil {
+		return nil, err
+	}
+
+	packetLen := int(packet[3])
+	if packetLen < minHeaderLen {
+		return nil, fmt.Errorf("incorrect header length: %d", packetLen)
+	}
+	if bodyLen := int(binary.LittleEndian.Uint16(packet[5:7])); bodyLen > 0 {
+		packetLen += bodyLen + 2
+	}
+
+	tail := make([]byte, packetLen-minHeaderLen)
+	if _, err := io.ReadFull(r, tail); err != nil {
+		return nil, err
+	}
+
+	return append(packet, tail...), nil
+}
-- 
2.43.0


From 5b92ace3bd6452f255f3faf2fe611a29db66d951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:38 +0000
Subject: [PATCH 28/32] fix: Stop cannot miss a port that is already open

---
 cli/receiver/server/server.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cli/receiver/server/server.go b/cli/receiver/server/server.go
index 5f2b711..8b00f8a 100644
--- a/cli/receiver/server/server.go
+++ b/cli/receiver/server/server.go
@@ -27,16 +27,16 @@ type Server struct {
 }
 
 func (s *Server) Run() {
+	// под блокировкой, чтобы Stop не мог разминуться с уже открытым портом
+	s.mu.Lock()
 	l, err := net.Listen("tcp", s.addr)
+	s.l = l
+	s.mu.Unlock()
 	if err != nil {
 		log.Fatalf("Не удалось открыть соединение: %v", err)
 	}
 	defer l.Close()
 
-	s.mu.Lock()
-	s.l = l
-	s.mu.Unlock()
-
 	log.Infof("Запущен сервер %s...", s.addr)
 	for {
 		conn, err := l.Accept()
-- 
2.43.0


From 40504be230755609355d9c91106f0bdc7a940b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:25 +0000
Subject: [PATCH 29/32] fix: quote the postgresql connection parameters

---
 cli/receiver/storage/store/postgresql/connector.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/cli/receiver/storage/store/postgresql/connector.go b/cli/receiver/storage/store/postgresql/connector.go
index 6db4bad..da76f3e 100644
--- a/cli/receiver/storage/store/postgresql/connector.go
+++ b/cli/receiver/storage/store/postgresql/connector.go
@@ -19,6 +19,7 @@ import (
 	"database/sql"
 	"fmt"
 	_ "github.com/lib/pq"
+	"strings"
 )
 
 type Connector struct {
@@ -35,7 +36,8 @@ func (c *Connector) Init(cfg map[string]string) error {
 	}
 	c.config = cfg
 	connStr := fmt.Sprintf("dbname=%s host=%s port=%s user=%s password=%s sslmode=%s",
-		c.config["database"], c.config["host"], c.config["port"], c.config["user"], c.config["password"], c.config["sslmode"])
+		quoteParam(c.config["database"]), quoteParam(c.config["host"]), quoteParam(c.config["port"]),
+		quoteParam(c.config["user"]), quoteParam(c.config["password"]), quoteParam(c.config["sslmode"]))
 	if c.connection, err = sql.Open("postgres", connStr); err != nil {
 		return fmt.Errorf("Ошибка подключения к postgresql: %v", err)
 	}
@@ -46,6 +48,11 @@ func (c *Connector) Init(cfg map[string]string) error {
 	return err
 }
 
+// quoteParam экранирует значение параметра в строке подключения, так как оно может быть пустым или содержать пробелы
+func quoteParam(v string) string {
+	return "'" + strings.NewReplacer(`\`, `\\`, `'`, `\'`).Replace(v) + "'"
+}
+
 func (c *Connector) Save(msg interface{ ToBytes() ([]byte, error) }) error {
 	if msg == nil {
 		return fmt.Errorf("Не корректная ссылка на пакет")
-- 
2.43.0


From 452ca1461b036e24bd278c332fddbcadc2e14588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:29 +0000
Subject: [PATCH 30/32] fix: escape the rabbitmq user and password

---
 cli/receiver/storage/store/rabbitmq/connector.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cli/receiver/storage/store/rabbitmq/connector.go b/cli/receiver/storage/store/rabbitmq/connector.go
index 68da009..eb663f7 100644
--- a/cli/receiver/storage/store/rabbitmq/connector.go
+++ b/cli/receiver/storage/store/rabbitmq/connector.go
@@ -16,6 +16,7 @@ exchange_type = "topic"
 import (
 	"fmt"
 	"github.com/streadway/amqp"
+	"net/url"
 )
 
 type Connector struct {
@@ -33,7 +34,7 @@ func (c *Connector) Init(cfg map[string]string) error {
 	}
 
 	c.config = cfg
-	conStr := fmt.Sprintf("amqp://%s:%s@%s:%s/", c.config["user"], c.config["password"], c.config["host"], c.config["port"])
+	conStr := fmt.Sprintf("amqp://%s@%s:%s/", url.UserPassword(c.config["user"], c.config["password"]), c.config["host"], c.config["port"])
 	if c.connection, err = amqp.Dial(conStr); err != nil {
 		return fmt.Errorf("Ошибка установки соединеия RabbitMQ: %v", err)
 	}
-- 
2.43.0


From bfb853d5cf7a6874f14b883294355457677be416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:10 +0000
Subject: [PATCH 31/32] fix: do not insert a postgresql row twice when the
 answer is lost

---
 cli/receiver/storage/store/postgresql/connector.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/cli/receiver/storage/store/postgresql/connector.go b/cli/receiver/storage/store/postgresql/connector.go
index da76f3e..8615e5c 100644
--- a/cli/receiver/storage/store/postgresql/connector.go
+++ b/cli/receiver/storage/store/postgresql/connector.go
@@ -64,7 +64,17 @@ func (c *Connector) Save(msg interface{ ToBytes() ([]byte, error) }) error {
 	}
 
 	insertQuery := fmt.Sprintf("INSERT INTO %s (point) VALUES ($1)", c.config["table"])
-	if _, err = c.connection.Exec(insertQuery, innerPkg); err != nil {
+	// вставка в явной транзакции, так как Exec повторяется database/sql при обрыве соединения
+	// и потеря ответа сервера приводила к вставке записи дважды
+	tx, err := c.connection.Begin()
+	if err != nil {
+		return fmt.Errorf("Не удалось вставить запись: %v", err)
+	}
+	if _, err = tx.Exec(insertQuery, innerPkg); err != nil {
+		_ = tx.Rollback()
+		return fmt.Errorf("Не удалось вставить запись: %v", err)
+	}
+	if err = tx.Commit(); err != nil {
 		return fmt.Errorf("Не удалось вставить запись: %v", err)
 	}
 	return nil
-- 
2.43.0


From 84d349d67d15b8557d3abd56586c0c9e3de722b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:14 +0000
Subject: [PATCH 32/32] fix: attribute a record to its own object identifier
 even if it identifies the terminal

---
 cli/receiver/server/server.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cli/receiver/server/server.go b/cli/receiver/server/server.go
index 8b00f8a..a19ee62 100644
--- a/cli/receiver/server/server.go
+++ b/cli/receiver/server/server.go
@@ -201,7 +201,9 @@ func (s *Server) handleConn(conn net.Conn) {
 						log.Debug("Разбор подзаписи EGTS_SR_TERM_IDENTITY")
 
 						// на случай если секция с данными не содержит oid
-						client = subRecData.TerminalIdentifier
+						if rec.ObjectIDFieldExists != "1" {
+							client = subRecData.TerminalIdentifier
+						}
 
 						if srResultCodePkg, err = createSrResultCode(pkg.PacketIdentifier, egtsPcOk); err != nil {
 							log.Errorf("Ошибка сборки EGTS_SR_RESULT_CODE: %v", err)
-- 
2.43.0

