From e58b18131b3bf0c1a12cca945c88bfa3ede7a963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:57 +0000
Subject: [PATCH 01/31] fix: keep the old value when assigning an invalid field
 value

---
 pykeepass/attachment.py  |  3 ++-
 pykeepass/baseelement.py | 10 +++++++++-
 pykeepass/entry.py       | 15 ++++++++-------
 pykeepass/pykeepass.py   |  7 ++++---
 4 files changed, 23 insertions(+), 12 deletions(-)

diff --git a/pykeepass/attachment.py b/pykeepass/attachment.py
index 8006e12..72834f8 100644
--- a/pykeepass/attachment.py
+++ b/pykeepass/attachment.py
@@ -1,4 +1,5 @@
 from . import entry
+from .baseelement import set_text
 from .exceptions import BinaryError
 
 
@@ -35,7 +36,7 @@ class Attachment:
 
     @filename.setter
     def filename(self, filename):
-        self._element.find('Key').text = filename
+        set_text(self._element.find('Key'), filename)
 
     @property
     def entry(self):
diff --git a/pykeepass/baseelement.py b/pykeepass/baseelement.py
index 048e5cf..01c9999 100644
--- a/pykeepass/baseelement.py
+++ b/pykeepass/baseelement.py
@@ -7,6 +7,13 @@ from lxml import etree
 from lxml.builder import E
 
 
+def set_text(element, text):
+    """Set text of an element.  lxml drops the old text before it rejects invalid
+    text, so try the text on a scratch element first"""
+    etree.Element('_').text = text
+    element.text = text
+
+
 class BaseElement:
     """Entry and Group inherit from this class"""
 
@@ -47,9 +54,10 @@ class BaseElement:
 
     def _set_subelement_text(self, tag, value):
         v = self._element.find(tag)
+        self._element.append(getattr(E, tag)(value))
+        # remove the old element last, so that it survives if the new one is invalid
         if v is not None:
             self._element.remove(v)
-        self._element.append(getattr(E, tag)(value))
 
     @property
     def group(self):
diff --git a/pykeepass/entry.py b/pykeepass/entry.py
index 3ef7e4e..89b778b 100644
--- a/pykeepass/entry.py
+++ b/pykeepass/entry.py
@@ -6,7 +6,7 @@ from lxml.etree import Element, _Element
 from lxml.objectify import ObjectifiedElement
 
 from . import attachment
-from .baseelement import BaseElement
+from .baseelement import BaseElement, set_text
 
 logger = logging.getLogger(__name__)
 reserved_keys = [
@@ -114,14 +114,15 @@ class Entry(BaseElement):
         else:
             protected_str = str(protected)
 
-        if field is not None:
-            self._element.remove(field)
-
         if protected_str is None:
             self._element.append(E.String(E.Key(key), E.Value(value)))
         else:
             self._element.append(E.String(E.Key(key), E.Value(value, Protected=protected_str)))
 
+        # remove the old field last, so that it survives if the new one is invalid
+        if field is not None:
+            self._element.remove(field)
+
     def _get_string_field_keys(self, exclude_reserved=False):
         results = [x.find('Key').text for x in self._element.findall('String')]
         if exclude_reserved:
@@ -291,7 +292,7 @@ class Entry(BaseElement):
     def autotype_enabled(self, value):
         enabled = self._element.find('AutoType/Enabled')
         if value is not None:
-            enabled.text = str(value)
+            set_text(enabled, str(value))
         else:
             enabled.text = None
 
@@ -305,7 +306,7 @@ class Entry(BaseElement):
 
     @autotype_sequence.setter
     def autotype_sequence(self, value):
-        self._element.find('AutoType/DefaultSequence').text = value
+        set_text(self._element.find('AutoType/DefaultSequence'), value)
 
     @property
     def autotype_window(self):
@@ -317,7 +318,7 @@ class Entry(BaseElement):
 
     @autotype_window.setter
     def autotype_window(self, value):
-        self._element.find('AutoType/Association/Window').text = value
+        set_text(self._element.find('AutoType/Association/Window'), value)
 
     @property
     def is_a_history_entry(self):
diff --git a/pykeepass/pykeepass.py b/pykeepass/pykeepass.py
index ec8b506..a38f97c 100644
--- a/pykeepass/pykeepass.py
+++ b/pykeepass/pykeepass.py
@@ -16,6 +16,7 @@ from lxml import etree
 from lxml.builder import E
 
 from .attachment import Attachment
+from .baseelement import set_text
 from .entry import Entry
 from .exceptions import (
     BinaryError,
@@ -276,7 +277,7 @@ class PyKeePass:
     @database_name.setter
     def database_name(self, name):
         item = self._xpath('/KeePassFile/Meta/DatabaseName', first=True)
-        item.text = str(name)
+        set_text(item, str(name))
 
     @property
     def database_description(self):
@@ -287,7 +288,7 @@ class PyKeePass:
     @database_description.setter
     def database_description(self, name):
         item = self._xpath('/KeePassFile/Meta/DatabaseDescription', first=True)
-        item.text = str(name)
+        set_text(item, str(name))
 
     @property
     def default_username(self):
@@ -298,7 +299,7 @@ class PyKeePass:
     @default_username.setter
     def default_username(self, name):
         item = self._xpath('/KeePassFile/Meta/DefaultUserName', first=True)
-        item.text = str(name)
+        set_text(item, str(name))
 
     def xml(self):
         """Get XML part of database as string
-- 
2.43.0


From 63f6d5782181052aa2c3b6a6c57ca514af5d94fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:11 +0000
Subject: [PATCH 02/31] fix: quote search texts, field keys and paths in XPath
 queries

A double quote in a title, username, key, path or search text made the
query invalid (XPathEvalError).
---
 pykeepass/entry.py     | 11 ++++++-----
 pykeepass/pykeepass.py | 18 ++++++++++--------
 pykeepass/xpath.py     | 13 +++++++++++++
 3 files changed, 29 insertions(+), 13 deletions(-)

diff --git a/pykeepass/entry.py b/pykeepass/entry.py
index 89b778b..34a3bb3 100644
--- a/pykeepass/entry.py
+++ b/pykeepass/entry.py
@@ -7,6 +7,7 @@ from lxml.objectify import ObjectifiedElement
 
 from . import attachment
 from .baseelement import BaseElement, set_text
+from .xpath import literal
 
 logger = logging.getLogger(__name__)
 reserved_keys = [
@@ -88,7 +89,7 @@ class Entry(BaseElement):
             `str` or `None`: field value
         """
 
-        field = self._xpath('String/Key[text()="{}"]/../Value'.format(key), history=True, first=True)
+        field = self._xpath('String/Key[text()={}]/../Value'.format(literal(key)), history=True, first=True)
         if field is not None:
             return field.text
 
@@ -104,11 +105,11 @@ class Entry(BaseElement):
 
         Note: pykeepass does not support memory protection
         """
-        field = self._xpath('String/Key[text()="{}"]/..'.format(key), history=True, first=True)
+        field = self._xpath('String/Key[text()={}]/..'.format(literal(key)), history=True, first=True)
 
         protected_str = None
         if protected is None:
-            protected_field = self._xpath('String/Key[text()="{}"]/../Value'.format(key), first=True)
+            protected_field = self._xpath('String/Key[text()={}]/../Value'.format(literal(key)), first=True)
             if protected_field is not None:
                 protected_str = protected_field.attrib.get("Protected")
         else:
@@ -355,7 +356,7 @@ class Entry(BaseElement):
     def delete_custom_property(self, key):
         if key not in self._get_string_field_keys(exclude_reserved=True):
             raise AttributeError('No such key: {}'.format(key))
-        prop = self._xpath('String/Key[text()="{}"]/..'.format(key), first=True)
+        prop = self._xpath('String/Key[text()={}]/..'.format(literal(key)), first=True)
         if prop is None:
             raise AttributeError('Could not find property element')
         self._element.remove(prop)
@@ -378,7 +379,7 @@ class Entry(BaseElement):
 
     def _is_property_protected(self, key):
         """Whether a property is protected."""
-        field = self._xpath('String/Key[text()="{}"]/../Value'.format(key), first=True)
+        field = self._xpath('String/Key[text()={}]/../Value'.format(literal(key)), first=True)
         if field is not None:
             return field.attrib.get("Protected", "False") == "True"
         return False
diff --git a/pykeepass/pykeepass.py b/pykeepass/pykeepass.py
index a38f97c..ac50249 100644
--- a/pykeepass/pykeepass.py
+++ b/pykeepass/pykeepass.py
@@ -27,7 +27,7 @@ from .exceptions import (
 )
 from .group import Group
 from .kdbx_parsing import KDBX, kdf_uuids
-from .xpath import attachment_xp, entry_xp, group_xp, path_xp
+from .xpath import attachment_xp, entry_xp, fill, group_xp, literal, path_xp
 
 logger = logging.getLogger(__name__)
 
@@ -394,11 +394,11 @@ class PyKeePass:
             element = path[-1] if len(path) > 0 else ''
             # build xpath from group_path and element
             for group in group_path:
-                xp += path_xp[regex]['group'].format(group, flags=flags)
+                xp += fill(path_xp[regex]['group'], group, flags=flags)
             if 'Entry' in prefix:
-                xp += path_xp[regex]['entry'].format(element, flags=flags)
+                xp += fill(path_xp[regex]['entry'], element, flags=flags)
             elif element and 'Group' in prefix:
-                xp += path_xp[regex]['group'].format(element, flags=flags)
+                xp += fill(path_xp[regex]['group'], element, flags=flags)
 
         else:
             if tree is not None:
@@ -409,7 +409,7 @@ class PyKeePass:
             # handle searching custom string fields
             if 'string' in kwargs:
                 for key, value in kwargs['string'].items():
-                    xp += keys_xp[regex]['string'].format(key, value, flags=flags)
+                    xp += fill(keys_xp[regex]['string'], key, value, flags=flags)
 
                 kwargs.pop('string')
 
@@ -420,14 +420,16 @@ class PyKeePass:
             # convert tags to semicolon separated string before building xpath
             # FIXME: this isn't a reliable way to search tags.  e.g. searching ['tag1', 'tag2'] will match 'tag1tag2
             if 'tags' in kwargs:
-                kwargs['tags'] = ' and '.join(f'contains(text(),"{t}")' for t in kwargs['tags'])
+                kwargs['tags'] = ' and '.join(f'contains(text(),{literal(t)})' for t in kwargs['tags'])
 
             # build xpath to filter results with specified attributes
             for key, value in kwargs.items():
                 if key not in keys_xp[regex]:
                     raise TypeError('Invalid keyword argument "{}"'.format(key))
-                if value is not None:
-                    xp += keys_xp[regex][key].format(value, flags=flags)
+                if key == 'tags':
+                    xp += keys_xp[regex][key].format(value)
+                elif value is not None:
+                    xp += fill(keys_xp[regex][key], value, flags=flags)
 
         res = self._xpath(
             xp,
diff --git a/pykeepass/xpath.py b/pykeepass/xpath.py
index e07d312..3151297 100644
--- a/pykeepass/xpath.py
+++ b/pykeepass/xpath.py
@@ -1,3 +1,16 @@
+def literal(value):
+    """Quote a value as an XPath string literal"""
+    value = str(value)
+    if '"' not in value:
+        return '"{}"'.format(value)
+    if "'" not in value:
+        return "'{}'".format(value)
+    return 'concat({})'.format(", '\"', ".join('"{}"'.format(v) for v in value.split('"')))
+
+def fill(template, *values, flags=None):
+    """Insert values into the quoted places of an XPath template"""
+    return template.replace('"{}"', '{}').format(*[literal(v) for v in values], flags=flags)
+
 attachment_xp = {
     False: {
         'id': '/Value[@Ref="{}"]/..',
-- 
2.43.0


From 72ff324fe1bd75000665a5a9584dae741a4c1488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:42 +0000
Subject: [PATCH 03/31] fix: ignore search criteria given as None (uuid, tags,
 string)

---
 pykeepass/pykeepass.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/pykeepass/pykeepass.py b/pykeepass/pykeepass.py
index ac50249..4c8dc2a 100644
--- a/pykeepass/pykeepass.py
+++ b/pykeepass/pykeepass.py
@@ -407,19 +407,18 @@ class PyKeePass:
             xp += prefix
 
             # handle searching custom string fields
-            if 'string' in kwargs:
-                for key, value in kwargs['string'].items():
+            string = kwargs.pop('string', None)
+            if string is not None:
+                for key, value in string.items():
                     xp += fill(keys_xp[regex]['string'], key, value, flags=flags)
 
-                kwargs.pop('string')
-
             # convert uuid to base64 form before building xpath
-            if 'uuid' in kwargs:
+            if kwargs.get('uuid') is not None:
                 kwargs['uuid'] = base64.b64encode(kwargs['uuid'].bytes).decode('utf-8')
 
             # convert tags to semicolon separated string before building xpath
             # FIXME: this isn't a reliable way to search tags.  e.g. searching ['tag1', 'tag2'] will match 'tag1tag2
-            if 'tags' in kwargs:
+            if kwargs.get('tags') is not None:
                 kwargs['tags'] = ' and '.join(f'contains(text(),{literal(t)})' for t in kwargs['tags'])
 
             # build xpath to filter results with specified attributes
@@ -427,7 +426,7 @@ class PyKeePass:
                 if key not in keys_xp[regex]:
                     raise TypeError('Invalid keyword argument "{}"'.format(key))
                 if key == 'tags':
-                    xp += keys_xp[regex][key].format(value)
+                    xp += keys_xp[regex][key].format(value) if value else ''
                 elif value is not None:
                     xp += fill(keys_xp[regex][key], value, flags=flags)
 
-- 
2.43.0


From 76c3851f70f0892266b4cfc8649d16c8b2ed08da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:56 +0000
Subject: [PATCH 04/31] fix: match UUIDs literally in regex searches

The base64 form of a UUID was used as a regular expression, in which '+' is special.
---
 pykeepass/xpath.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pykeepass/xpath.py b/pykeepass/xpath.py
index 3151297..57b0a4d 100644
--- a/pykeepass/xpath.py
+++ b/pykeepass/xpath.py
@@ -54,7 +54,7 @@ entry_xp = {
         'password': '/String/Key[text()="Password"]/../Value[re:test(text(), "{}", "{flags}")]/../..',
         'url': '/String/Key[text()="URL"]/../Value[re:test(text(), "{}", "{flags}")]/../..',
         'notes': '/String/Key[text()="Notes"]/../Value[re:test(text(), "{}", "{flags}")]/../..',
-        'uuid': '/UUID[re:test(text(), "{}", "{flags}")]/..',
+        'uuid': '/UUID[text()="{}"]/..', # UUIDs are not regular expressions
         'tags': '/Tags[{}]/..', # no regular expression support for tags
         'string': '/String/Key[text()="{}"]/../Value[re:test(text(), "{}", "{flags}")]/../..',
         'autotype_sequence': '/AutoType/DefaultSequence[re:test(text(), "{}", "{flags}")]/../..',
@@ -72,7 +72,7 @@ group_xp = {
     },
     True: {
         'name': '/Name[re:test(text(), "{}", "{flags}")]/..',
-        'uuid': '/UUID[re:test(text(), "{}", "{flags}")]/..',
+        'uuid': '/UUID[text()="{}"]/..', # UUIDs are not regular expressions
         'notes': '/Notes[re:test(text(), "{}", "{flags}")]/..',
     }
 }
-- 
2.43.0


From 3847a13bed290e7a4de4844279e3efea4c933c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:10 +0000
Subject: [PATCH 05/31] fix: read payloads with texts over 10 MB or deep group
 nesting

Such databases could be saved but not opened again.
---
 pykeepass/kdbx_parsing/common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykeepass/kdbx_parsing/common.py b/pykeepass/kdbx_parsing/common.py
index 00630ef..319d466 100644
--- a/pykeepass/kdbx_parsing/common.py
+++ b/pykeepass/kdbx_parsing/common.py
@@ -195,7 +195,7 @@ class XML(Adapter):
     """Bytes <---> lxml etree"""
 
     def _decode(self, data, con, path):
-        parser = etree.XMLParser(remove_blank_text=True)
+        parser = etree.XMLParser(remove_blank_text=True, huge_tree=True)
         return etree.parse(io.BytesIO(data), parser)
 
     def _encode(self, tree, con, path):
-- 
2.43.0


From 410f243f6ce7c9a1db051e2dfd86041ae7755807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:46 +0000
Subject: [PATCH 06/31] fix: delete_binary keeps every remaining reference on
 its own bytes

References in history were left dangling on the next binary, KDBX3 IDs in
the file were not renumbered together with the references, KDBX3 binaries
stored out of order could be mixed up, and a negative id removed the last
binary while renumbering all references.
---
 pykeepass/pykeepass.py | 32 +++++++++++++++++++-------------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/pykeepass/pykeepass.py b/pykeepass/pykeepass.py
index 4c8dc2a..1df665d 100644
--- a/pykeepass/pykeepass.py
+++ b/pykeepass/pykeepass.py
@@ -778,7 +778,8 @@ class PyKeePass:
             binaries = [a.data[1:] for a in self.payload.inner_header.binary]
         else:
             binaries = []
-            for elem in self._xpath('/KeePassFile/Meta/Binaries/Binary'):
+            elems = self._xpath('/KeePassFile/Meta/Binaries/Binary')
+            for elem in sorted(elems, key=lambda e: int(e.attrib['ID'])):
                 if elem.text is not None:
                     if elem.get('Compressed') == 'True':
                         data = zlib.decompress(
@@ -789,7 +790,7 @@ class PyKeePass:
                         data = base64.b64decode(elem.text)
                 else:
                     data = b''
-                binaries.insert(int(elem.attrib['ID']), data)
+                binaries.append(data)
 
         return binaries
 
@@ -851,19 +852,24 @@ class PyKeePass:
         Raises:
             `IndexError`: raised when binary with given ID does not exist
         """
-        try:
-            if self.version >= (4, 0):
-                # remove binary element from inner header
-                self.payload.inner_header.binary.pop(id)
-            else:
-                # remove binary element from XML
-                binaries = self._xpath('/KeePassFile/Meta/Binaries', first=True)
-                binaries.remove(binaries.getchildren()[id])
-        except IndexError:
+        if not 0 <= id < len(self.binaries):
             raise BinaryError('No such binary with id {}'.format(id))
 
-        # remove all entry references to this attachment
-        for reference in self.find_attachments(id=id):
+        if self.version >= (4, 0):
+            # remove binary element from inner header
+            self.payload.inner_header.binary.pop(id)
+        else:
+            # remove binary element from XML and close the gap in the IDs
+            binaries = self._xpath('/KeePassFile/Meta/Binaries', first=True)
+            for elem in binaries.findall('Binary'):
+                elem_id = int(elem.attrib['ID'])
+                if elem_id == id:
+                    binaries.remove(elem)
+                elif elem_id > id:
+                    elem.attrib['ID'] = str(elem_id - 1)
+
+        # remove all references to this attachment, including those in history
+        for reference in self.find_attachments(id=id, history=True):
             reference.delete()
 
         # decrement references greater than this id
-- 
2.43.0


From 64b90153b4c700c2ac0269bd55ae0952843523f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:01 +0000
Subject: [PATCH 07/31] fix: find_attachments without criteria in KDBX3
 databases

---
 pykeepass/pykeepass.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pykeepass/pykeepass.py b/pykeepass/pykeepass.py
index 1df665d..d6bc499 100644
--- a/pykeepass/pykeepass.py
+++ b/pykeepass/pykeepass.py
@@ -759,7 +759,8 @@ class PyKeePass:
                 `False`).
         """
 
-        prefix = '//Binary' if recursive else '/Binary'
+        # attachments have a key, unlike the KDBX3 binaries in Meta
+        prefix = '//Binary[Key]' if recursive else '/Binary[Key]'
         res = self._find(prefix, attachment_xp, path=path, tree=element, **kwargs)
 
         return res
-- 
2.43.0


From 7676651526d39c97203db72a766fa8f11340a135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:01 +0000
Subject: [PATCH 08/31] fix: list the attachments of history entries

---
 pykeepass/entry.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pykeepass/entry.py b/pykeepass/entry.py
index 34a3bb3..7329f61 100644
--- a/pykeepass/entry.py
+++ b/pykeepass/entry.py
@@ -158,7 +158,8 @@ class Entry(BaseElement):
             element=self,
             filename='.*',
             regex=True,
-            recursive=False
+            recursive=False,
+            history=True
         )
 
     def add_attachment(self, id, filename):
-- 
2.43.0


From 93a6a1c4919394f15def20f49b483b9fa33b7c57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:40 +0000
Subject: [PATCH 09/31] fix: keep the instant of times with a UTC offset, read
 ISO times in KDBX4

KDBX3 times set with a non-UTC datetime read back shifted by the offset.
ISO times in a KDBX4 database raised struct.error.
---
 pykeepass/pykeepass.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pykeepass/pykeepass.py b/pykeepass/pykeepass.py
index d6bc499..e1ac95a 100644
--- a/pykeepass/pykeepass.py
+++ b/pykeepass/pykeepass.py
@@ -1019,6 +1019,8 @@ class PyKeePass:
                 struct.pack('<Q', diff_seconds)
             ).decode('utf-8')
         else:
+            if value.tzinfo is not None:
+                value = value.astimezone(timezone.utc)
             return value.isoformat()
 
     def _decode_time(self, text):
@@ -1033,10 +1035,12 @@ class PyKeePass:
                         seconds=struct.unpack('<Q', base64.b64decode(text))[0]
                     )
                 )
-            except BinasciiError:
-                return datetime.fromisoformat(text.replace('Z','+00:00')).replace(tzinfo=timezone.utc)
-        else:
-            return datetime.fromisoformat(text.replace('Z','+00:00')).replace(tzinfo=timezone.utc)
+            except (BinasciiError, struct.error):
+                pass
+        value = datetime.fromisoformat(text.replace('Z','+00:00'))
+        if value.tzinfo is None:
+            return value.replace(tzinfo=timezone.utc)
+        return value.astimezone(timezone.utc)
 
 def create_database(
         filename, password=None, keyfile=None, transformed_key=None
-- 
2.43.0


From 2d14f268034eef187a52d1ee5fdff405f06ca8d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:54 +0000
Subject: [PATCH 10/31] fix: credential changes in databases without a recorded
 change date or limits

Assigning a password raised AttributeError after the password was already
replaced, and the policy properties raised TypeError.
---
 pykeepass/pykeepass.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/pykeepass/pykeepass.py b/pykeepass/pykeepass.py
index e1ac95a..2a6cb6c 100644
--- a/pykeepass/pykeepass.py
+++ b/pykeepass/pykeepass.py
@@ -960,31 +960,37 @@ class PyKeePass:
     def credchange_required_days(self, days):
         path = '/KeePassFile/Meta/MasterKeyChangeForce'
         item = self._xpath(path, first=True)
+        if item is None:
+            item = etree.SubElement(self._xpath('/KeePassFile/Meta', first=True), path.split('/')[-1])
         item.text = str(days)
 
     @credchange_recommended_days.setter
     def credchange_recommended_days(self, days):
         path = '/KeePassFile/Meta/MasterKeyChangeRec'
         item = self._xpath(path, first=True)
+        if item is None:
+            item = etree.SubElement(self._xpath('/KeePassFile/Meta', first=True), path.split('/')[-1])
         item.text = str(days)
 
     @property
     def credchange_date(self):
         """`datetime.datetime`: get or set UTC time of last credential change"""
         e = self._xpath('/KeePassFile/Meta/MasterKeyChanged', first=True)
-        if e is not None:
+        if e is not None and e.text:
             return self._decode_time(e.text)
 
     @credchange_date.setter
     def credchange_date(self, date):
         mk_time = self._xpath('/KeePassFile/Meta/MasterKeyChanged', first=True)
+        if mk_time is None:
+            mk_time = etree.SubElement(self._xpath('/KeePassFile/Meta', first=True), 'MasterKeyChanged')
         mk_time.text = self._encode_time(date)
 
     @property
     def credchange_required(self):
         """`bool`: Check if credential change is required"""
         change_date = self.credchange_date
-        if change_date is None or self.credchange_required_days == -1:
+        if change_date is None or self.credchange_required_days in (None, -1):
             return False
         now_date = datetime.now(timezone.utc)
         return (now_date - change_date).days > self.credchange_required_days
@@ -993,7 +999,7 @@ class PyKeePass:
     def credchange_recommended(self):
         """`bool`: Check if credential change is recommended"""
         change_date = self.credchange_date
-        if change_date is None or self.credchange_recommended_days == -1:
+        if change_date is None or self.credchange_recommended_days in (None, -1):
             return False
         now_date = datetime.now(timezone.utc)
         return (now_date - change_date).days > self.credchange_recommended_days
-- 
2.43.0


From b5126ae2fbc89ca23862250c6c6323e613b50a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:35 +0000
Subject: [PATCH 11/31] fix: dereference UUIDs, unset fields and circular
 references

A reference to a UUID or to an unset field raised TypeError, a malformed
UUID raised ValueError, and circular references grew until RecursionError
or memory ran out.
---
 pykeepass/pykeepass.py | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/pykeepass/pykeepass.py b/pykeepass/pykeepass.py
index 2a6cb6c..f2f55aa 100644
--- a/pykeepass/pykeepass.py
+++ b/pykeepass/pykeepass.py
@@ -891,10 +891,13 @@ class PyKeePass:
             value (`str`): KeePass reference string to another field
 
         Returns:
-            `str`, `uuid.UUID` or `None` if no match found
+            `str` or `None` if no match found or the reference is circular
 
         [fieldref]: https://keepass.info/help/base/fieldrefs.html
         """
+        return self._deref(value)
+
+    def _deref(self, value, active=()):
         if not value:
             return value
         references = set(re.findall(r'({REF:([TUPANI])@([TUPANI]):([^}]+)})', value))
@@ -909,15 +912,28 @@ class PyKeePass:
             'I': 'uuid',
         }
         for ref, wanted_field, search_in, search_value in references:
+            if ref in active:
+                # circular reference
+                return None
             wanted_field = field_to_attribute[wanted_field]
             search_in = field_to_attribute[search_in]
             if search_in == 'uuid':
-                search_value = uuid.UUID(search_value)
+                try:
+                    search_value = uuid.UUID(search_value)
+                except ValueError:
+                    return None
             ref_entry = self.find_entries(first=True, **{search_in: search_value})
             if ref_entry is None:
                 return None
-            value = value.replace(ref, getattr(ref_entry, wanted_field))
-        return self.deref(value)
+            text = getattr(ref_entry, wanted_field)
+            if wanted_field == 'uuid':
+                text = text.hex.upper()
+            text = self._deref(text or '', active + (ref,))
+            if text is None:
+                return None
+            value = value.replace(ref, text)
+        # resolving may have put together new references
+        return self._deref(value, active + tuple(r[0] for r in references))
 
 
     # ---------- Credential Changing and Expiry ----------
-- 
2.43.0


From e3b89b1d8e6ba1baf22d33443182c81b34b2bd2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:49 +0000
Subject: [PATCH 12/31] fix: count only entries in the index of an entry

index and reindex counted other elements between the entries of a group
(its name after a rename, subgroups) as entries.
---
 pykeepass/entry.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/pykeepass/entry.py b/pykeepass/entry.py
index 7329f61..d3a29cb 100644
--- a/pykeepass/entry.py
+++ b/pykeepass/entry.py
@@ -134,11 +134,7 @@ class Entry(BaseElement):
     @property
     def index(self):
         """`int`: index of a entry within a group"""
-        group = self.group._element
-        children = group.getchildren()
-        first_index = self.group._first_entry
-        index = children.index(self._element)
-        return index - first_index
+        return self.group._element.findall('Entry').index(self._element)
 
     def reindex(self, new_index):
         """Move entry to a new index within a group
@@ -146,10 +142,12 @@ class Entry(BaseElement):
         Args:
             new_index (`int`): new index for the entry starting at 0
         """
-        group = self.group._element
-        first_index = self.group._first_entry
-        group.remove(self._element)
-        group.insert(new_index+first_index, self._element)
+        others = self.group._element.findall('Entry')
+        others.remove(self._element)
+        if new_index < len(others):
+            others[new_index].addprevious(self._element)
+        elif others:
+            others[-1].addnext(self._element)
 
     @property
     def attachments(self):
-- 
2.43.0


From 30ec64009b423d930abe6ac6b8a750bff01211fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:03 +0000
Subject: [PATCH 13/31] fix: report the key derivation of KDBX 4.1 and 3.0
 databases

---
 pykeepass/pykeepass.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pykeepass/pykeepass.py b/pykeepass/pykeepass.py
index f2f55aa..35b3d66 100644
--- a/pykeepass/pykeepass.py
+++ b/pykeepass/pykeepass.py
@@ -201,9 +201,9 @@ class PyKeePass:
     def kdf_algorithm(self):
         """`str`: key derivation algorithm used by database during decryption.
         Can be one of 'aeskdf', 'argon2', or 'argon2id'"""
-        if self.version == (3, 1):
+        if self.version < (4, 0):
             return 'aeskdf'
-        elif self.version == (4, 0):
+        else:
             kdf_parameters = self.kdbx.header.value.dynamic_header.kdf_parameters.data.dict
             if kdf_parameters['$UUID'].value == kdf_uuids['argon2']:
                 return 'argon2'
@@ -223,7 +223,7 @@ class PyKeePass:
        """`bytes`: salt of database kdf. This can be used for adding additional
        credentials which are used in extension to current keyfile."""
 
-       if self.version == (3, 1):
+       if self.version < (4, 0):
             return self.kdbx.header.value.dynamic_header.transform_seed.data
 
        kdf_parameters = self.kdbx.header.value.dynamic_header.kdf_parameters.data.dict
-- 
2.43.0


From d3117e1d9299fa8e0f4e176b9b18f760a5a4d614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:36 +0000
Subject: [PATCH 14/31] fix: add_entry with title, username or password None

None is documented, but raised TypeError or was taken to match any
existing entry of the group.
---
 pykeepass/entry.py     |  6 +++---
 pykeepass/pykeepass.py | 11 +++++++----
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/pykeepass/entry.py b/pykeepass/entry.py
index d3a29cb..c8c9b43 100644
--- a/pykeepass/entry.py
+++ b/pykeepass/entry.py
@@ -40,10 +40,10 @@ class Entry(BaseElement):
                 expiry_time=expiry_time,
                 icon=icon
             )
-            self._element.append(E.String(E.Key('Title'), E.Value(title)))
-            self._element.append(E.String(E.Key('UserName'), E.Value(username)))
+            self._element.append(E.String(E.Key('Title'), E.Value(title or '')))
+            self._element.append(E.String(E.Key('UserName'), E.Value(username or '')))
             self._element.append(
-                E.String(E.Key('Password'), E.Value(password, Protected="True"))
+                E.String(E.Key('Password'), E.Value(password or '', Protected="True"))
             )
             if url:
                 self._element.append(E.String(E.Key('URL'), E.Value(url)))
diff --git a/pykeepass/pykeepass.py b/pykeepass/pykeepass.py
index 35b3d66..de7feb1 100644
--- a/pykeepass/pykeepass.py
+++ b/pykeepass/pykeepass.py
@@ -679,14 +679,17 @@ class PyKeePass:
         """
 
         entries = self.find_entries(
-            title=title,
-            username=username,
-            first=True,
+            title=title or None,
+            username=username or None,
             group=destination_group,
             recursive=False
         )
+        exists = any(
+            (e.title or '') == (title or '') and (e.username or '') == (username or '')
+            for e in entries
+        )
 
-        if entries and not force_creation:
+        if exists and not force_creation:
             raise Exception(
                 'An entry "{}" already exists in "{}"'.format(
                     title, destination_group
-- 
2.43.0


From 9c4bee1335d46a4c21fdcc96553adbc0efb116a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:50 +0000
Subject: [PATCH 15/31] fix: a failed read leaves the open database and its
 credentials unchanged

After a failed reload or read, save would write the old content to the
file that was not opened, with the credentials that did not open it.
---
 pykeepass/pykeepass.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/pykeepass/pykeepass.py b/pykeepass/pykeepass.py
index de7feb1..3024f14 100644
--- a/pykeepass/pykeepass.py
+++ b/pykeepass/pykeepass.py
@@ -88,16 +88,12 @@ class PyKeePass:
         """
 
         # TODO: - raise, no filename provided, database not open
-        self._password = password
-        self._keyfile = keyfile
-        if filename:
-            self.filename = filename
-        else:
+        if not filename:
             filename = self.filename
 
         try:
             if hasattr(filename, "read"):
-                self.kdbx = KDBX.parse_stream(
+                kdbx = KDBX.parse_stream(
                     filename,
                     password=password,
                     keyfile=keyfile,
@@ -105,7 +101,7 @@ class PyKeePass:
                     decrypt=decrypt
                 )
             else:
-                self.kdbx = KDBX.parse_file(
+                kdbx = KDBX.parse_file(
                     filename,
                     password=password,
                     keyfile=keyfile,
@@ -136,6 +132,12 @@ class PyKeePass:
             else:
                 raise
 
+        # a failed read leaves the object as it was
+        self.kdbx = kdbx
+        self.filename = filename
+        self._password = password
+        self._keyfile = keyfile
+
     def reload(self):
         """Reload current database using previously given credentials """
 
-- 
2.43.0


From 28c2f532a3c866258c254c70910e89e54fbb586f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:02 +0000
Subject: [PATCH 16/31] fix: keep the credentials of a database opened with a
 transformed key

Saving it without a password re-encrypted it with empty credentials.
---
 pykeepass/pykeepass.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pykeepass/pykeepass.py b/pykeepass/pykeepass.py
index 3024f14..8067299 100644
--- a/pykeepass/pykeepass.py
+++ b/pykeepass/pykeepass.py
@@ -137,11 +137,12 @@ class PyKeePass:
         self.filename = filename
         self._password = password
         self._keyfile = keyfile
+        self._transformed_key = transformed_key
 
     def reload(self):
         """Reload current database using previously given credentials """
 
-        self.read(self.filename, self.password, self.keyfile)
+        self.read(self.filename, self.password, self.keyfile, self._transformed_key)
 
     def save(self, filename=None, transformed_key=None):
         """Save current database object to disk.
@@ -156,6 +157,8 @@ class PyKeePass:
 
         if not filename:
             filename = self.filename
+        if transformed_key is None:
+            transformed_key = self._transformed_key
 
         if hasattr(filename, "write"):
             KDBX.build_stream(
@@ -951,6 +954,7 @@ class PyKeePass:
     @password.setter
     def password(self, password):
         self._password = password
+        self._transformed_key = None
         self.credchange_date = datetime.now(timezone.utc)
 
     @property
@@ -961,6 +965,7 @@ class PyKeePass:
     @keyfile.setter
     def keyfile(self, keyfile):
         self._keyfile = keyfile
+        self._transformed_key = None
         self.credchange_date = datetime.now(timezone.utc)
 
     @property
-- 
2.43.0


From b861a9f769969c37491edffc0a9948fc6b14e653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:16 +0000
Subject: [PATCH 17/31] fix: create_database with a transformed key

The key was passed to save as the file name.
---
 pykeepass/pykeepass.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pykeepass/pykeepass.py b/pykeepass/pykeepass.py
index 8067299..4f7d0fc 100644
--- a/pykeepass/pykeepass.py
+++ b/pykeepass/pykeepass.py
@@ -1100,8 +1100,9 @@ def create_database(
     keepass_instance.filename = filename
     keepass_instance.password = password
     keepass_instance.keyfile = keyfile
+    keepass_instance._transformed_key = transformed_key
 
-    keepass_instance.save(transformed_key)
+    keepass_instance.save()
     return keepass_instance
 
 def debug_setup():
-- 
2.43.0


From 5a021277e6aac61953846d42c632faa4a8e84d8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:56 +0000
Subject: [PATCH 18/31] fix: save never overwrites other files and replaces the
 database atomically

The temporary file db.tmp of db.kdbx overwrote (and removed) a user's file
of that name, a database named *.tmp was written in place, and if the
rename failed the database was overwritten in place.
---
 pykeepass/pykeepass.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/pykeepass/pykeepass.py b/pykeepass/pykeepass.py
index 4f7d0fc..0de988a 100644
--- a/pykeepass/pykeepass.py
+++ b/pykeepass/pykeepass.py
@@ -2,7 +2,6 @@ import base64
 import logging
 import os
 import re
-import shutil
 import struct
 import uuid
 import zlib
@@ -172,7 +171,8 @@ class PyKeePass:
         else:
             # save to temporary file to prevent database clobbering
             # see issues 223, 101
-            filename_tmp = Path(filename).with_suffix('.tmp')
+            # the temporary name is unique, so that no other file is overwritten
+            filename_tmp = Path(filename).with_name('.{}.tmp'.format(uuid.uuid4().hex))
             try:
                 KDBX.build_file(
                     self.kdbx,
@@ -182,10 +182,11 @@ class PyKeePass:
                     transformed_key=transformed_key,
                     decrypt=True
                 )
-            except Exception as e:
-                os.remove(filename_tmp)
-                raise e
-            shutil.move(filename_tmp, filename)
+                os.replace(filename_tmp, filename)
+            except BaseException:
+                if os.path.exists(filename_tmp):
+                    os.remove(filename_tmp)
+                raise
 
     @property
     def version(self):
-- 
2.43.0


From 142299b27a7b5a763b2a9a67026dd7a215062dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:14:49 +0000
Subject: [PATCH 19/31] fix: save to and reload from the stream of a database

Saving to the stream the database was opened from appended a second
database, reload read from the end of the stream, and a failed save left a
partial database in the stream.
---
 pykeepass/pykeepass.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/pykeepass/pykeepass.py b/pykeepass/pykeepass.py
index 0de988a..36da225 100644
--- a/pykeepass/pykeepass.py
+++ b/pykeepass/pykeepass.py
@@ -90,8 +90,10 @@ class PyKeePass:
         if not filename:
             filename = self.filename
 
+        stream_start = None
         try:
             if hasattr(filename, "read"):
+                stream_start = (filename, filename.tell())
                 kdbx = KDBX.parse_stream(
                     filename,
                     password=password,
@@ -137,10 +139,13 @@ class PyKeePass:
         self._password = password
         self._keyfile = keyfile
         self._transformed_key = transformed_key
+        self._stream_start = stream_start
 
     def reload(self):
         """Reload current database using previously given credentials """
 
+        if self._stream_start is not None and self._stream_start[0] is self.filename:
+            self.filename.seek(self._stream_start[1])
         self.read(self.filename, self.password, self.keyfile, self._transformed_key)
 
     def save(self, filename=None, transformed_key=None):
@@ -160,14 +165,23 @@ class PyKeePass:
             transformed_key = self._transformed_key
 
         if hasattr(filename, "write"):
-            KDBX.build_stream(
+            # build first, so that nothing is written if it fails
+            data = KDBX.build(
                 self.kdbx,
-                filename,
                 password=self.password,
                 keyfile=self.keyfile,
                 transformed_key=transformed_key,
                 decrypt=True
             )
+            # replace the database in the stream it belongs to
+            own = filename is self.filename and hasattr(filename, "seek")
+            if own:
+                if self._stream_start is None or self._stream_start[0] is not filename:
+                    self._stream_start = (filename, filename.tell())
+                filename.seek(self._stream_start[1])
+            filename.write(data)
+            if own:
+                filename.truncate()
         else:
             # save to temporary file to prevent database clobbering
             # see issues 223, 101
-- 
2.43.0


From 886706581c0b91d63eefc6c4195ae6661f6d191a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:15:04 +0000
Subject: [PATCH 20/31] fix: verify the KDBX4 header before running the key
 derivation

With corrupted key derivation parameters opening could run out of time or
memory, or raise an argon2 error, instead of HeaderChecksumError.
---
 pykeepass/kdbx_parsing/kdbx4.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pykeepass/kdbx_parsing/kdbx4.py b/pykeepass/kdbx_parsing/kdbx4.py
index 426d3ac..1c2cad6 100644
--- a/pykeepass/kdbx_parsing/kdbx4.py
+++ b/pykeepass/kdbx_parsing/kdbx4.py
@@ -284,14 +284,15 @@ UnpackedPayload = Reparsed(
 # -------------------- Main KDBX Structure --------------------
 
 Body = Struct(
-    "transformed_key" / Computed(compute_transformed),
-    "master_key" / Computed(compute_master),
+    # verify the header before using its key derivation parameters
     "sha256" / Checksum(
         Bytes(32),
         lambda data: hashlib.sha256(data).digest(),
         this._.header.data,
         # exception=HeaderChecksumError,
     ),
+    "transformed_key" / Computed(compute_transformed),
+    "master_key" / Computed(compute_master),
     "cred_check" / If(this._._.decrypt,
         Checksum(
             Bytes(32),
-- 
2.43.0


From aa47f9b6afbaa67f43617a257287612abea511dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:15:19 +0000
Subject: [PATCH 21/31] fix: 64 byte key files that only resemble hex

Python's int() also accepts a 0x prefix, signs, underscores and white
space, and such key files raised IOError instead of being hashed.
---
 pykeepass/kdbx_parsing/common.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/pykeepass/kdbx_parsing/common.py b/pykeepass/kdbx_parsing/common.py
index 319d466..5d3a159 100644
--- a/pykeepass/kdbx_parsing/common.py
+++ b/pykeepass/kdbx_parsing/common.py
@@ -153,11 +153,7 @@ def compute_key_composite(password=None, keyfile=None):
         # otherwise, try to read plain keyfile
         except (etree.XMLSyntaxError, UnicodeDecodeError, AttributeError):
             try:
-                try:
-                    int(keyfile_bytes, 16)
-                    is_hex = True
-                except ValueError:
-                    is_hex = False
+                is_hex = re.fullmatch(b'[0-9a-fA-F]*', keyfile_bytes)
                 # if the length is 32 bytes we assume it is the key
                 if len(keyfile_bytes) == 32:
                     keyfile_composite = keyfile_bytes
-- 
2.43.0


From 635f5162c341512ab72d113d4bf9d8a7e8c30961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:15:33 +0000
Subject: [PATCH 22/31] fix: read protected binaries of KDBX3 databases

They were skipped, so all protected values after them were decrypted with
the wrong part of the key stream.
---
 pykeepass/kdbx_parsing/common.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/pykeepass/kdbx_parsing/common.py b/pykeepass/kdbx_parsing/common.py
index 5d3a159..5ad6ac6 100644
--- a/pykeepass/kdbx_parsing/common.py
+++ b/pykeepass/kdbx_parsing/common.py
@@ -203,7 +203,8 @@ class UnprotectedStream(Adapter):
     Iterate etree for Protected elements and decrypt using cipher
     provided by get_cipher"""
 
-    protected_xpath = '//Value[@Protected=\'True\']'
+    # KDBX3 may also protect the binaries in Meta
+    protected_xpath = '//*[self::Value or self::Binary][@Protected=\'True\']'
 
     def __init__(self, protected_stream_key, subcon):
         super().__init__(subcon)
@@ -214,7 +215,11 @@ class UnprotectedStream(Adapter):
         for elem in tree.xpath(self.protected_xpath):
             if elem.text is not None:
                 try:
-                    result = cipher.decrypt(base64.b64decode(elem.text)).decode('utf-8')
+                    result = cipher.decrypt(base64.b64decode(elem.text))
+                    if elem.tag == 'Binary':
+                        elem.text = base64.b64encode(result)
+                        continue
+                    result = result.decode('utf-8')
                     # strip invalid XML characters - https://stackoverflow.com/questions/8733233
                     result = re.sub(
                         '[^\u0020-\uD7FF\u0009\u000A\u000D\uE000-\uFFFD\U00010000-\U0010FFFF]+',
@@ -234,11 +239,11 @@ class UnprotectedStream(Adapter):
         cipher = self.get_cipher(self.protected_stream_key(con))
         for elem in tree_copy.xpath(self.protected_xpath):
             if elem.text is not None:
-                elem.text = base64.b64encode(
-                    cipher.encrypt(
-                        elem.text.encode('utf-8')
-                    )
-                )
+                if elem.tag == 'Binary':
+                    data = base64.b64decode(elem.text)
+                else:
+                    data = elem.text.encode('utf-8')
+                elem.text = base64.b64encode(cipher.encrypt(data))
         return tree_copy
 
 
-- 
2.43.0


From 011259898428f8c6ff355d75f1f0192bfe943f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:16:05 +0000
Subject: [PATCH 23/31] fix: verify the header checksum of KDBX3 databases

Changed KDBX3 header fields (cipher parameters, comments) went unnoticed
although the checksum is stored in the payload.
---
 pykeepass/pykeepass.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pykeepass/pykeepass.py b/pykeepass/pykeepass.py
index 36da225..b3cc3c3 100644
--- a/pykeepass/pykeepass.py
+++ b/pykeepass/pykeepass.py
@@ -1,4 +1,5 @@
 import base64
+import hashlib
 import logging
 import os
 import re
@@ -133,6 +134,12 @@ class PyKeePass:
             else:
                 raise
 
+        # KDBX3 keeps the header checksum in the payload
+        if kdbx.header.value.major_version == 3 and kdbx.body.payload is not None:
+            header_hash = kdbx.body.payload.xml.findtext('Meta/HeaderHash')
+            if header_hash and base64.b64decode(header_hash) != hashlib.sha256(kdbx.header.data).digest():
+                raise HeaderChecksumError("Corrupted database")
+
         # a failed read leaves the object as it was
         self.kdbx = kdbx
         self.filename = filename
-- 
2.43.0


From 1ed5a81d893e322a16b02b7bccf04100fd4542b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:48:09 +0000
Subject: [PATCH 24/31] fix: refuse files of an unsupported major version

A file whose version is neither 3 nor 4 opened without error and without
content, and saving it replaced the file by a 12-byte stump.
---
 pykeepass/kdbx_parsing/kdbx.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pykeepass/kdbx_parsing/kdbx.py b/pykeepass/kdbx_parsing/kdbx.py
index 935da4a..b0998aa 100644
--- a/pykeepass/kdbx_parsing/kdbx.py
+++ b/pykeepass/kdbx_parsing/kdbx.py
@@ -1,4 +1,4 @@
-from construct import Bytes, Check, Int16ul, RawCopy, Struct, Switch, this
+from construct import Bytes, Check, Error, Int16ul, RawCopy, Struct, Switch, this
 
 from .kdbx3 import Body as Body3
 from .kdbx3 import DynamicHeader as DynamicHeader3
@@ -22,7 +22,9 @@ KDBX = Struct(
                 this.major_version,
                 {3: DynamicHeader3,
                  4: DynamicHeader4
-                 }
+                 },
+                # unsupported version
+                default=Error
             )
         )
     ),
-- 
2.43.0


From c8e40b6ccc7bcb75fcbc5553d9240955d92f3b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:36:56 +0000
Subject: [PATCH 25/31] fix: recycle bin of databases whose RecycleBinUUID is
 empty or missing

---
 pykeepass/pykeepass.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pykeepass/pykeepass.py b/pykeepass/pykeepass.py
index b3cc3c3..27e4f3a 100644
--- a/pykeepass/pykeepass.py
+++ b/pykeepass/pykeepass.py
@@ -280,6 +280,8 @@ class PyKeePass:
     def recyclebin_group(self):
         """`Group`: RecycleBin Group of database"""
         elem = self._xpath('/KeePassFile/Meta/RecycleBinUUID', first=True)
+        if elem is None or not elem.text:
+            return None
         recyclebin_uuid = uuid.UUID( bytes = base64.b64decode(elem.text) )
         return self.find_groups(uuid=recyclebin_uuid, first=True)
 
@@ -572,6 +574,8 @@ class PyKeePass:
         kwargs.setdefault('group_name', 'Recycle Bin')
         group = self.add_group( self.root_group, **kwargs)
         elem = self._xpath('/KeePassFile/Meta/RecycleBinUUID', first=True)
+        if elem is None:
+            elem = etree.SubElement(self._xpath('/KeePassFile/Meta', first=True), 'RecycleBinUUID')
         elem.text = base64.b64encode(group.uuid.bytes).decode('utf-8')
         return group
 
-- 
2.43.0


From 991ca47d1f17671681ab0876d1655d7ce712a8ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:36:56 +0000
Subject: [PATCH 26/31] fix: autotype fields of entries without autotype
 elements

---
 pykeepass/baseelement.py |  9 +++++++++
 pykeepass/entry.py       | 14 +++++---------
 2 files changed, 14 insertions(+), 9 deletions(-)

diff --git a/pykeepass/baseelement.py b/pykeepass/baseelement.py
index 01c9999..8dc7fb4 100644
--- a/pykeepass/baseelement.py
+++ b/pykeepass/baseelement.py
@@ -59,6 +59,15 @@ class BaseElement:
         if v is not None:
             self._element.remove(v)
 
+    def _set_path_text(self, path, value):
+        """Set text of a descendant, which is created if it does not exist"""
+        etree.Element('_').text = value
+        element = self._element
+        for tag in path.split('/'):
+            child = element.find(tag)
+            element = etree.SubElement(element, tag) if child is None else child
+        element.text = value
+
     @property
     def group(self):
         return self._xpath(
diff --git a/pykeepass/entry.py b/pykeepass/entry.py
index c8c9b43..a43a7b2 100644
--- a/pykeepass/entry.py
+++ b/pykeepass/entry.py
@@ -6,7 +6,7 @@ from lxml.etree import Element, _Element
 from lxml.objectify import ObjectifiedElement
 
 from . import attachment
-from .baseelement import BaseElement, set_text
+from .baseelement import BaseElement
 from .xpath import literal
 
 logger = logging.getLogger(__name__)
@@ -285,16 +285,12 @@ class Entry(BaseElement):
     def autotype_enabled(self):
         """bool: get or set autotype enabled state.  Determines whether `autotype_sequence` should be used"""
         enabled = self._element.find('AutoType/Enabled')
-        if enabled.text is not None:
+        if enabled is not None and enabled.text is not None:
             return enabled.text == 'True'
 
     @autotype_enabled.setter
     def autotype_enabled(self, value):
-        enabled = self._element.find('AutoType/Enabled')
-        if value is not None:
-            set_text(enabled, str(value))
-        else:
-            enabled.text = None
+        self._set_path_text('AutoType/Enabled', str(value) if value is not None else None)
 
     @property
     def autotype_sequence(self):
@@ -306,7 +302,7 @@ class Entry(BaseElement):
 
     @autotype_sequence.setter
     def autotype_sequence(self, value):
-        set_text(self._element.find('AutoType/DefaultSequence'), value)
+        self._set_path_text('AutoType/DefaultSequence', value)
 
     @property
     def autotype_window(self):
@@ -318,7 +314,7 @@ class Entry(BaseElement):
 
     @autotype_window.setter
     def autotype_window(self, value):
-        set_text(self._element.find('AutoType/Association/Window'), value)
+        self._set_path_text('AutoType/Association/Window', value)
 
     @property
     def is_a_history_entry(self):
-- 
2.43.0


From 34c36563ae1f6ac484f8e5ead7d34938a8fe55ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:36:57 +0000
Subject: [PATCH 27/31] fix: times and expiry flag of elements that lack them

---
 pykeepass/baseelement.py | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/pykeepass/baseelement.py b/pykeepass/baseelement.py
index 8dc7fb4..d703ddc 100644
--- a/pykeepass/baseelement.py
+++ b/pykeepass/baseelement.py
@@ -113,27 +113,21 @@ class BaseElement:
                 return self._kp._decode_time(prop.text)
 
     def _set_times_property(self, prop, value):
-        times = self._element.find('Times')
-        if times is not None:
-            prop = times.find(prop)
-            if prop is not None:
-                prop.text = self._kp._encode_time(value)
+        self._set_path_text('Times/' + prop, self._kp._encode_time(value))
 
     @property
     def expires(self):
-        times = self._element.find('Times')
-        d = times.find('Expires').text
-        if d is not None:
+        d = self._element.findtext('Times/Expires')
+        if d:
             return d == 'True'
 
     @expires.setter
     def expires(self, value):
-        d = self._element.find('Times').find('Expires')
-        d.text = 'True' if value else 'False'
+        self._set_path_text('Times/Expires', 'True' if value else 'False')
 
     @property
     def expired(self):
-        if self.expires:
+        if self.expires and self.expiry_time is not None:
             return (
                 datetime.now(timezone.utc) >
                 self.expiry_time
-- 
2.43.0


From 46338e3e7f1ae84c5c9d6ef4c3e35de2b021770c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:37:18 +0000
Subject: [PATCH 28/31] fix: database name, description, user name and limits
 that are missing or empty

---
 pykeepass/pykeepass.py | 31 +++++++++++++++++++++++--------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/pykeepass/pykeepass.py b/pykeepass/pykeepass.py
index 27e4f3a..b9b7543 100644
--- a/pykeepass/pykeepass.py
+++ b/pykeepass/pykeepass.py
@@ -301,34 +301,49 @@ class PyKeePass:
     def database_name(self):
         """`str`: Name of database"""
         elem = self._xpath('/KeePassFile/Meta/DatabaseName', first=True)
-        return elem.text
+        if elem is not None:
+            return elem.text
 
     @database_name.setter
     def database_name(self, name):
         item = self._xpath('/KeePassFile/Meta/DatabaseName', first=True)
-        set_text(item, str(name))
+        if item is None:
+            item = self._xpath('/KeePassFile/Meta', first=True)
+            item.append(E.DatabaseName(str(name)))
+        else:
+            set_text(item, str(name))
 
     @property
     def database_description(self):
         """`str`: Description of the database"""
         elem = self._xpath('/KeePassFile/Meta/DatabaseDescription', first=True)
-        return elem.text
+        if elem is not None:
+            return elem.text
 
     @database_description.setter
     def database_description(self, name):
         item = self._xpath('/KeePassFile/Meta/DatabaseDescription', first=True)
-        set_text(item, str(name))
+        if item is None:
+            item = self._xpath('/KeePassFile/Meta', first=True)
+            item.append(E.DatabaseDescription(str(name)))
+        else:
+            set_text(item, str(name))
 
     @property
     def default_username(self):
         """`str` or `None`: default user.  `None` if not set"""
         elem = self._xpath('/KeePassFile/Meta/DefaultUserName', first=True)
-        return elem.text
+        if elem is not None:
+            return elem.text
 
     @default_username.setter
     def default_username(self, name):
         item = self._xpath('/KeePassFile/Meta/DefaultUserName', first=True)
-        set_text(item, str(name))
+        if item is None:
+            item = self._xpath('/KeePassFile/Meta', first=True)
+            item.append(E.DefaultUserName(str(name)))
+        else:
+            set_text(item, str(name))
 
     def xml(self):
         """Get XML part of database as string
@@ -998,14 +1013,14 @@ class PyKeePass:
     def credchange_required_days(self):
         """`int`: Days until password update should be required"""
         e = self._xpath('/KeePassFile/Meta/MasterKeyChangeForce', first=True)
-        if e is not None:
+        if e is not None and e.text:
             return int(e.text)
 
     @property
     def credchange_recommended_days(self):
         """`int`: Days until password update should be recommended"""
         e = self._xpath('/KeePassFile/Meta/MasterKeyChangeRec', first=True)
-        if e is not None:
+        if e is not None and e.text:
             return int(e.text)
 
     @credchange_required_days.setter
-- 
2.43.0


From d6230b72f803898183bf28d26c9c52cb9c3a9b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:37:18 +0000
Subject: [PATCH 29/31] fix: add_binary to KDBX3 databases without a list of
 binaries

---
 pykeepass/pykeepass.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pykeepass/pykeepass.py b/pykeepass/pykeepass.py
index b9b7543..258516f 100644
--- a/pykeepass/pykeepass.py
+++ b/pykeepass/pykeepass.py
@@ -868,6 +868,8 @@ class PyKeePass:
                 '/KeePassFile/Meta/Binaries',
                 first=True
             )
+            if binaries is None:
+                binaries = etree.SubElement(self._xpath('/KeePassFile/Meta', first=True), 'Binaries')
             if compressed:
                 # gzip compression
                 compressor = zlib.compressobj(
-- 
2.43.0


From a3251879647d418550098ea1c36e80b63ec9478e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:16:34 +0000
Subject: [PATCH 30/31] fix: elements whose UUIDs differ but have the same hash
 compared equal

---
 pykeepass/baseelement.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pykeepass/baseelement.py b/pykeepass/baseelement.py
index d703ddc..a143c7c 100644
--- a/pykeepass/baseelement.py
+++ b/pykeepass/baseelement.py
@@ -184,7 +184,8 @@ class BaseElement:
 
     def __eq__(self, other):
         if isinstance(other, BaseElement):
-            return hash(self) == hash(other)
+            # different UUIDs can have the same hash
+            return hash(self) == hash(other) and self.uuid == other.uuid
         return NotImplemented
 
     def touch(self, modify=False):
-- 
2.43.0


From 9506558af57e8911a5a5bf360cc678d1cc6ee0e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:16:34 +0000
Subject: [PATCH 31/31] fix: deleting all history of an entry without history
 raised TypeError

---
 pykeepass/entry.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pykeepass/entry.py b/pykeepass/entry.py
index a43a7b2..2bb7fd4 100644
--- a/pykeepass/entry.py
+++ b/pykeepass/entry.py
@@ -433,7 +433,9 @@ class Entry(BaseElement):
         """
 
         if all:
-            self._element.remove(self._element.find('History'))
+            history = self._element.find('History')
+            if history is not None:
+                self._element.remove(history)
         else:
             self._element.find('History').remove(history_entry._element)
 
-- 
2.43.0

