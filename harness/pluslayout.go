//go:build go1.22

package main

// layout of the EGTS_PLUS_DATA message, from docs/egts_sr_egtsplus_data.proto

var plusLayout = map[string][]plusField{
	"StorageRecord": {
		{"RecordNumber", "uint32", 1, "req", ""},
		{"TimeStamp", "fixed32", 2, "req", ""},
		{"RecordReason", "reason", 3, "rep", ""},
		{"StatusFlags", "fixed32", 4, "req", ""},
		{"SensNdNavData", "message", 7, "rep", "SensNdNavData"},
		{"SensFuelLevel", "message", 8, "rep", "SensFuelLevel"},
		{"SensAinAinValue", "message", 9, "rep", "SensAinAinValue"},
		{"SensDinsFlags", "message", 10, "rep", "SensDinsFlags"},
		{"SensCounterCount", "message", 11, "rep", "SensCounterCount"},
		{"SensFmeterFrequency", "message", 12, "rep", "SensFmeterFrequency"},
		{"SensGsmCellMonotoringCellMonitoring", "message", 13, "rep", "SensGsmCellMonotoringCellMonitoring"},
		{"SensButtonPressCounter", "message", 14, "rep", "SensButtonPressCounter"},
		{"SensTermoData", "message", 15, "rep", "SensTermoData"},
		{"SensCanLogData", "message", 16, "rep", "SensCanLogData"},
		{"SensCanLogTmpDataExt", "message", 17, "rep", "SensCanLogTmpDataExt"},
		{"SensAccelerometerData", "message", 18, "rep", "SensAccelerometerData"},
		{"SensDoutsFlags", "message", 19, "rep", "SensDoutsFlags"},
		{"SensBufferData", "message", 20, "rep", "SensBufferData"},
		{"SensStorInfo", "message", 21, "rep", "SensStorInfo"},
		{"SensTrackerInfo", "message", 22, "rep", "SensTrackerInfo"},
		{"SensTestEraTests", "message", 23, "rep", "SensTestEraTests"},
		{"SensCrashData", "message", 24, "rep", "SensCrashData"},
	},
	"SensAccelerometerData": {
		{"SensNum", "uint32", 1, "opt", ""},
		{"Buf", "bytes", 2, "opt", ""},
		{"Atm", "uint32", 3, "opt", ""},
		{"Frequency", "uint32", 4, "opt", ""},
		{"Range", "uint32", 5, "opt", ""},
		{"Format", "uint32", 6, "opt", ""},
		{"Zlib", "uint32", 7, "opt", ""},
	},
	"SensAinAinValue": {
		{"SensNum", "uint32", 1, "opt", ""},
		{"Mv", "uint32", 2, "opt", ""},
	},
	"SensBufferData": {
		{"SensNum", "uint32", 1, "opt", ""},
		{"Data", "bytes", 2, "opt", ""},
		{"IsPacked", "bool", 3, "opt", ""},
	},
	"SensButtonPressCounter": {
		{"SensNum", "uint32", 1, "opt", ""},
		{"State", "bool", 2, "opt", ""},
	},
	"SensCanLogData": {
		{"SensNum", "uint32", 1, "opt", ""},
		{"FlagSecurityState", "uint32", 2, "opt", ""},
		{"FlagAlarm", "uint32", 3, "opt", ""},
		{"EngineTimeAll", "uint32", 4, "opt", ""},
		{"EngineTurnSpeed", "uint32", 5, "opt", ""},
		{"EngineTemperature", "sint32", 6, "opt", ""},
		{"FuelConsumptionAll", "uint32", 7, "opt", ""},
		{"FuelLevel", "uint32", 8, "opt", ""},
		{"TrackAll", "uint32", 9, "opt", ""},
		{"Speed", "uint32", 10, "opt", ""},
		{"PressureAxis_1", "uint32", 11, "opt", ""},
		{"PressureAxis_2", "uint32", 12, "opt", ""},
		{"PressureAxis_3", "uint32", 13, "opt", ""},
		{"PressureAxis_4", "uint32", 14, "opt", ""},
		{"PressureAxis_5", "uint32", 15, "opt", ""},
	},
	"SensCanLogTmpDataExt": {
		{"SensNum", "uint32", 1, "opt", ""},
		{"FlagsHigh", "uint32", 2, "opt", ""},
		{"FlagsLow", "uint32", 3, "opt", ""},
	},
	"SensCounterCount": {
		{"SensNum", "uint32", 1, "opt", ""},
		{"Value", "uint32", 2, "opt", ""},
	},
	"SensCrashData": {
		{"SensNum", "uint32", 1, "opt", ""},
		{"Energy", "uint32", 2, "opt", ""},
		{"IsOverturned", "bool", 3, "opt", ""},
	},
	"SensDinsFlags": {
		{"SensNum", "uint32", 1, "opt", ""},
		{"Device", "uint32", 2, "opt", ""},
		{"External", "uint32", 3, "opt", ""},
	},
	"SensDoutsFlags": {
		{"SensNum", "uint32", 1, "opt", ""},
		{"Device", "uint32", 2, "opt", ""},
		{"External", "uint32", 3, "opt", ""},
	},
	"SensFmeterFrequency": {
		{"SensNum", "uint32", 1, "opt", ""},
		{"Value", "uint32", 2, "opt", ""},
	},
	"SensFuelLevel": {
		{"SensNum", "uint32", 1, "opt", ""},
		{"Value", "float", 2, "opt", ""},
		{"Parrots", "uint32", 3, "opt", ""},
		{"Unit", "uint32", 4, "opt", ""},
		{"T", "uint32", 5, "opt", ""},
		{"Status", "uint32", 6, "opt", ""},
	},
	"SensGsmCellMonotoringCellMonitoring": {
		{"SensNum", "uint32", 1, "opt", ""},
		{"Mcc", "uint32", 2, "opt", ""},
		{"Mnc", "uint32", 3, "opt", ""},
		{"Lac", "bytes", 4, "opt", ""},
		{"Cid", "bytes", 5, "opt", ""},
		{"Rssi", "bytes", 6, "opt", ""},
		{"TimeAdv", "bytes", 7, "opt", ""},
	},
	"SensNdNavData": {
		{"SensNum", "uint32", 1, "opt", ""},
		{"Longitude", "sfixed32", 2, "opt", ""},
		{"Latitude", "sfixed32", 3, "opt", ""},
		{"Altitude", "uint32", 4, "opt", ""},
		{"Speed", "uint32", 5, "opt", ""},
		{"Course", "uint32", 6, "opt", ""},
		{"SatCount", "uint32", 7, "opt", ""},
		{"Pdop", "uint32", 8, "opt", ""},
		{"Track", "uint32", 9, "opt", ""},
		{"Odometer", "uint32", 10, "opt", ""},
	},
	"SensStorInfo": {
		{"SensNum", "uint32", 1, "opt", ""},
		{"IdMax", "uint32", 2, "opt", ""},
		{"IdMin", "uint32", 3, "opt", ""},
		{"TmOldest", "uint32", 4, "opt", ""},
		{"TmOldestUnack", "uint32", 5, "opt", ""},
		{"CntUnack", "uint32", 6, "opt", ""},
		{"CntUnackLosted", "uint32", 7, "opt", ""},
	},
	"SensTermoData": {
		{"SensNum", "uint32", 1, "opt", ""},
		{"Status", "uint32", 2, "opt", ""},
		{"Temperature", "sint32", 3, "opt", ""},
	},
	"SensTestEraTests": {
		{"SensNum", "uint32", 1, "opt", ""},
		{"MicConFailure", "bool", 2, "opt", ""},
		{"MicFailure", "bool", 3, "opt", ""},
		{"IgnitionFailure", "bool", 4, "opt", ""},
		{"UimFailure", "bool", 5, "opt", ""},
		{"BatFailure", "bool", 6, "opt", ""},
		{"BatVoltLow", "bool", 7, "opt", ""},
		{"CrashSensFailure", "bool", 8, "opt", ""},
		{"RaimProblem", "bool", 9, "opt", ""},
		{"GnssAntennaFailure", "bool", 10, "opt", ""},
		{"EventsMemoryOverflow", "bool", 11, "opt", ""},
	},
	"SensTrackerInfo": {
		{"SensNum", "uint32", 1, "opt", ""},
		{"CntAck", "uint32", 2, "opt", ""},
		{"CntAckRealtime", "uint32", 3, "opt", ""},
		{"CntNoack", "uint32", 4, "opt", ""},
		{"CntConnect", "uint32", 5, "opt", ""},
	},
}
