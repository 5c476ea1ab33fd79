package mon

// Human-readable names (SCTE 35 tables 6, 19, 20, 21, 22, 23 and 27).

import "strings"

func sapName(v uint32) string {
	switch v {
	case 0:
		return "Type 1"
	case 1:
		return "Type 2"
	case 2:
		return "Type 3"
	}
	return "Not Specified"
}

func algName(v uint32) string {
	switch v {
	case 0:
		return "No encryption"
	case 1:
		return "DES – ECB mode"
	case 2:
		return "DES – CBC mode"
	case 3:
		return "Triple DES EDE3 – ECB mode"
	}
	return "User private"
}

func deviceName(v uint32) string {
	switch v {
	case 0:
		return "Restrict Group 0"
	case 1:
		return "Restrict Group 1"
	case 2:
		return "Restrict Group 2"
	case 3:
		return "None"
	}
	return "Unknown"
}

var segNames = map[uint32]string{
	0x00: "Not Indicated", 0x01: "Content Identification",
	0x10: "Program Start", 0x11: "Program End", 0x12: "Program Early Termination", 0x13: "Program Breakaway",
	0x14: "Program Resumption", 0x15: "Program Runover Planned", 0x16: "Program Runover Unplanned",
	0x17: "Program Overlap Start", 0x18: "Program Blackout Override", 0x19: "Program Start - In Progress",
	0x20: "Chapter Start", 0x21: "Chapter End", 0x22: "Break Start", 0x23: "Break End",
	0x24: "Opening Credit Start", 0x25: "Opening Credit End", 0x26: "Closing Credit Start", 0x27: "Closing Credit End",
	0x30: "Provider Advertisement Start", 0x31: "Provider Advertisement End",
	0x32: "Distributor Advertisement Start", 0x33: "Distributor Advertisement End",
	0x34: "Provider Placement Opportunity Start", 0x35: "Provider Placement Opportunity End",
	0x36: "Distributor Placement Opportunity Start", 0x37: "Distributor Placement Opportunity End",
	0x38: "Provider Overlay Placement Opportunity Start", 0x39: "Provider Overlay Placement Opportunity End",
	0x3a: "Distributor Overlay Placement Opportunity Start", 0x3b: "Distributor Overlay Placement Opportunity End",
	0x3c: "Provider Promo Start", 0x3d: "Provider Promo End", 0x3e: "Distributor Promo Start", 0x3f: "Distributor Promo End",
	0x40: "Unscheduled Event Start", 0x41: "Unscheduled Event End",
	0x42: "Alternate Content Opportunity Start", 0x43: "Alternate Content Opportunity End",
	0x44: "Provider Ad Block Start", 0x45: "Provider Ad Block End",
	0x46: "Distributor Ad Block Start", 0x47: "Distributor Ad Block End",
	0x50: "Network Start", 0x51: "Network End",
}

func segName(v uint32) string {
	if n, ok := segNames[v]; ok {
		return n
	}
	return "Unknown"
}

var upidNames = map[uint32]string{
	0x00: "Not Used", 0x01: "User Defined", 0x02: "ISCI", 0x03: "Ad-ID", 0x04: "UMID", 0x05: "ISAN (Deprecated)",
	0x06: "ISAN", 0x07: "TID", 0x08: "TI", 0x09: "ADI", 0x0b: "ATSC Content Identifier", 0x0c: "MPU()", 0x0d: "MID()",
	0x0e: "ADS Information", 0x0f: "URI", 0x10: "UUID", 0x11: "SCR",
}

// upidName is the name of a UPID type; EIDR names include the kind of EIDR.
func upidName(t uint32, val string) string {
	if t == 0x0a {
		return "EIDR: " + eidrName(val)
	}
	if n, ok := upidNames[t]; ok {
		return n
	}
	return "Unknown"
}

func eidrName(val string) string {
	pre, _, ok := strings.Cut(val, "/")
	if !ok {
		return ""
	}
	switch pre {
	case "10.5237":
		return "Party ID"
	case "10.5238":
		return "User ID"
	case "10.5239":
		return "Service ID"
	case "10.5240":
		return "Content ID"
	}
	return ""
}
