PROPERTY = "C19"
NEEDS = "a message with attachments that is assigned a message without attachments"
BREAKS = "the count of the attachments is not reset: the message still claims attachments that are gone"
EDITS = [("src/message.cpp", """                mAttachments[i] = new Attachment(*other.mAttachments[i]);
            }
        }
        mAttachmentCount = other.mAttachmentCount;""".replace("                mAtt", "                mAtt"), """                mAttachments[i] = new Attachment(*other.mAttachments[i]);
            }
            mAttachmentCount = other.mAttachmentCount;
        }""")]
DEMO = """
build()
open(WORK + "/f.txt", "w").write("x")
rc, out, err = run(("msg", "m", "plain", "a@example.com", "b@example.com", "", "", "s", "body", WORK + "/f.txt|f.txt|"), ("msg", "n", "plain", "a@example.com", "b@example.com", "", "", "s2", "body2"), ("msgassign", "m", "n"), ("msgshow", "m"), ok=False)
check(rc == 0, "memory error: " + err[:300])
check(out[-1][0] == "msg" and out[-1][-1] == "", "the assigned message has attachments: %s" % out)
passed()
"""
