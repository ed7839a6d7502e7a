# Generated from rich.proto. DO NOT EDIT.
# Generated by protoc-gen-py v0.1.1 with parameter "".
# ruff: noqa: PGH004
# ruff: noqa
# fmt: off

from __future__ import annotations

from typing import Literal, TYPE_CHECKING, TypeAlias

from protobuf import Enum, Message
from protobuf._codegen import file_desc
from protobuf.wkt import any_pb, duration_pb, field_mask_pb, struct_pb, timestamp_pb, wrappers_pb

if TYPE_CHECKING:
    from protobuf import DescFile, Oneof
    from protobuf.wkt import Any, BytesValue, Duration, FieldMask, Int64Value, ListValue, NullValue, StringValue, Struct, Timestamp, Value


_LeafFields: TypeAlias = Literal["name", "n"]

class Leaf(Message[_LeafFields]):
    """
    ```proto
    message verif.rich.Leaf
    ```

    Attributes:
        name:
            ```proto
            string name = 1;
            ```
        n:
            ```proto
            int64 n = 2;
            ```
    """

    __slots__ = ("name", "n")

    if TYPE_CHECKING:

        def __init__(
            self,
            *,
            name: str = "",
            n: int = 0,
        ) -> None:
            pass

        name: str
        n: int

_RichFields: TypeAlias = Literal["d", "f", "i32", "i64", "u32", "u64", "s32", "s64", "x32", "x64", "y32", "y64", "b", "s", "raw", "colour", "leaf", "nums", "words", "leaves", "counts", "by_id", "by_flag", "pick_s", "pick_n", "pick_leaf", "pick_null", "opt_n", "opt_s", "snake_case_name", "other", "any", "ts", "dur", "mask", "st", "val", "ws", "wi", "wb", "colours", "self", "doubles", "list", "anys"]

class Rich(Message[_RichFields]):
    """
    ```proto
    message verif.rich.Rich
    ```

    Attributes:
        d:
            ```proto
            double d = 1;
            ```
        f:
            ```proto
            float f = 2;
            ```
        i32:
            ```proto
            int32 i32 = 3;
            ```
        i64:
            ```proto
            int64 i64 = 4;
            ```
        u32:
            ```proto
            uint32 u32 = 5;
            ```
        u64:
            ```proto
            uint64 u64 = 6;
            ```
        s32:
            ```proto
            sint32 s32 = 7;
            ```
        s64:
            ```proto
            sint64 s64 = 8;
            ```
        x32:
            ```proto
            fixed32 x32 = 9;
            ```
        x64:
            ```proto
            fixed64 x64 = 10;
            ```
        y32:
            ```proto
            sfixed32 y32 = 11;
            ```
        y64:
            ```proto
            sfixed64 y64 = 12;
            ```
        b:
            ```proto
            bool b = 13;
            ```
        s:
            ```proto
            string s = 14;
            ```
        raw:
            ```proto
            bytes raw = 15;
            ```
        colour:
            ```proto
            verif.rich.Colour colour = 16;
            ```
        leaf:
            ```proto
            optional verif.rich.Leaf leaf = 17;
            ```
        nums:
            ```proto
            repeated int32 nums = 18 [packed = true];
            ```
        words:
            ```proto
            repeated string words = 19;
            ```
        leaves:
            ```proto
            repeated verif.rich.Leaf leaves = 20;
            ```
        counts:
            ```proto
            map<string, int64> counts = 21;
            ```
        by_id:
            ```proto
            map<int32, verif.rich.Leaf> by_id = 22;
            ```
        by_flag:
            ```proto
            map<bool, bytes> by_flag = 23;
            ```
        pick:
            ```proto
            oneof pick
            ```
        opt_n:
            ```proto
            optional int32 opt_n = 28;
            ```
        opt_s:
            ```proto
            optional string opt_s = 29;
            ```
        snake_case_name:
            ```proto
            string snake_case_name = 30;
            ```
        other:
            ```proto
            string other = 31 [json_name = "@custom"];
            ```
        any:
            ```proto
            optional google.protobuf.Any any = 32;
            ```
        ts:
            ```proto
            optional google.protobuf.Timestamp ts = 33;
            ```
        dur:
            ```proto
            optional google.protobuf.Duration dur = 34;
            ```
        mask:
            ```proto
            optional google.protobuf.FieldMask mask = 35;
            ```
        st:
            ```proto
            optional google.protobuf.Struct st = 36;
            ```
        val:
            ```proto
            optional google.protobuf.Value val = 37;
            ```
        ws:
            ```proto
            optional google.protobuf.StringValue ws = 38;
            ```
        wi:
            ```proto
            optional google.protobuf.Int64Value wi = 39;
            ```
        wb:
            ```proto
            optional google.protobuf.BytesValue wb = 40;
            ```
        colours:
            ```proto
            repeated verif.rich.Colour colours = 41 [packed = true];
            ```
        self_:
            ```proto
            optional verif.rich.Rich self = 42;
            ```
        doubles:
            ```proto
            repeated double doubles = 43 [packed = false];
            ```
        list:
            ```proto
            optional google.protobuf.ListValue list = 44;
            ```
        anys:
            ```proto
            repeated google.protobuf.Any anys = 45;
            ```
    """

    __slots__ = ("d", "f", "i32", "i64", "u32", "u64", "s32", "s64", "x32", "x64", "y32", "y64", "b", "s", "raw", "colour", "leaf", "nums", "words", "leaves", "counts", "by_id", "by_flag", "opt_n", "opt_s", "snake_case_name", "other", "any", "ts", "dur", "mask", "st", "val", "ws", "wi", "wb", "colours", "self_", "doubles", "list", "anys", "pick")

    if TYPE_CHECKING:

        def __init__(
            self,
            *,
            d: float = 0,
            f: float = 0,
            i32: int = 0,
            i64: int = 0,
            u32: int = 0,
            u64: int = 0,
            s32: int = 0,
            s64: int = 0,
            x32: int = 0,
            x64: int = 0,
            y32: int = 0,
            y64: int = 0,
            b: bool = False,
            s: str = "",
            raw: bytes = b"",
            colour: Colour | None = None,
            leaf: Leaf | None = None,
            nums: list[int] | None = None,
            words: list[str] | None = None,
            leaves: list[Leaf] | None = None,
            counts: dict[str, int] | None = None,
            by_id: dict[int, Leaf] | None = None,
            by_flag: dict[bool, bytes] | None = None,
            pick: Oneof[Literal["pick_s"], str] | Oneof[Literal["pick_n"], int] | Oneof[Literal["pick_leaf"], Leaf] | Oneof[Literal["pick_null"], NullValue] | None = None,
            opt_n: int | None = None,
            opt_s: str | None = None,
            snake_case_name: str = "",
            other: str = "",
            any: Any | None = None,
            ts: Timestamp | None = None,
            dur: Duration | None = None,
            mask: FieldMask | None = None,
            st: Struct | None = None,
            val: Value | None = None,
            ws: StringValue | None = None,
            wi: Int64Value | None = None,
            wb: BytesValue | None = None,
            colours: list[Colour] | None = None,
            self_: Rich | None = None,
            doubles: list[float] | None = None,
            list: ListValue | None = None,
            anys: list[Any] | None = None,
        ) -> None:
            pass

        d: float
        f: float
        i32: int
        i64: int
        u32: int
        u64: int
        s32: int
        s64: int
        x32: int
        x64: int
        y32: int
        y64: int
        b: bool
        s: str
        raw: bytes
        colour: Colour
        leaf: Leaf | None
        nums: list[int]
        words: list[str]
        leaves: list[Leaf]
        counts: dict[str, int]
        by_id: dict[int, Leaf]
        by_flag: dict[bool, bytes]
        pick: Oneof[Literal["pick_s"], str] | Oneof[Literal["pick_n"], int] | Oneof[Literal["pick_leaf"], Leaf] | Oneof[Literal["pick_null"], NullValue] | None
        opt_n: int
        opt_s: str
        snake_case_name: str
        other: str
        any: Any | None
        ts: Timestamp | None
        dur: Duration | None
        mask: FieldMask | None
        st: Struct | None
        val: Value | None
        ws: StringValue | None
        wi: Int64Value | None
        wb: BytesValue | None
        colours: list[Colour]
        self_: Rich | None
        doubles: list[float]
        list: ListValue | None
        anys: list[Any]

class Colour(Enum):
    """
    ```proto
    enum verif.rich.Colour
    ```

    Attributes:
        UNSPECIFIED:
            ```proto
            COLOUR_UNSPECIFIED = 0
            ```
        RED:
            ```proto
            COLOUR_RED = 1
            ```
        BLUE:
            ```proto
            COLOUR_BLUE = 5
            ```
        NEG:
            ```proto
            COLOUR_NEG = -3
            ```
    """

    UNSPECIFIED = 0
    RED = 1
    BLUE = 5
    NEG = -3


_DESC = file_desc(
    b'\n\nrich.proto\x12\nverif.rich\x1a\x19google/protobuf/any.proto\x1a\x1egoogle/protobuf/duration.proto\x1a google/protobuf/field_mask.proto\x1a\x1cgoogle/protobuf/struct.proto\x1a\x1fgoogle/protobuf/timestamp.proto\x1a\x1egoogle/protobuf/wrappers.proto"(\n\x04Leaf\x12\x12\n\x04name\x18\x01 \x01(\tR\x04name\x12\x0c\n\x01n\x18\x02 \x01(\x03R\x01n"\x8f\r\n\x04Rich\x12\x0c\n\x01d\x18\x01 \x01(\x01R\x01d\x12\x0c\n\x01f\x18\x02 \x01(\x02R\x01f\x12\x10\n\x03i32\x18\x03 \x01(\x05R\x03i32\x12\x10\n\x03i64\x18\x04 \x01(\x03R\x03i64\x12\x10\n\x03u32\x18\x05 \x01(\rR\x03u32\x12\x10\n\x03u64\x18\x06 \x01(\x04R\x03u64\x12\x10\n\x03s32\x18\x07 \x01(\x11R\x03s32\x12\x10\n\x03s64\x18\x08 \x01(\x12R\x03s64\x12\x10\n\x03x32\x18\t \x01(\x07R\x03x32\x12\x10\n\x03x64\x18\n \x01(\x06R\x03x64\x12\x10\n\x03y32\x18\x0b \x01(\x0fR\x03y32\x12\x10\n\x03y64\x18\x0c \x01(\x10R\x03y64\x12\x0c\n\x01b\x18\r \x01(\x08R\x01b\x12\x0c\n\x01s\x18\x0e \x01(\tR\x01s\x12\x10\n\x03raw\x18\x0f \x01(\x0cR\x03raw\x12*\n\x06colour\x18\x10 \x01(\x0e2\x12.verif.rich.ColourR\x06colour\x12$\n\x04leaf\x18\x11 \x01(\x0b2\x10.verif.rich.LeafR\x04leaf\x12\x12\n\x04nums\x18\x12 \x03(\x05R\x04nums\x12\x14\n\x05words\x18\x13 \x03(\tR\x05words\x12(\n\x06leaves\x18\x14 \x03(\x0b2\x10.verif.rich.LeafR\x06leaves\x124\n\x06counts\x18\x15 \x03(\x0b2\x1c.verif.rich.Rich.CountsEntryR\x06counts\x12/\n\x05by_id\x18\x16 \x03(\x0b2\x1a.verif.rich.Rich.ByIdEntryR\x04byId\x125\n\x07by_flag\x18\x17 \x03(\x0b2\x1c.verif.rich.Rich.ByFlagEntryR\x06byFlag\x12\x17\n\x06pick_s\x18\x18 \x01(\tH\x00R\x05pickS\x12\x17\n\x06pick_n\x18\x19 \x01(\x03H\x00R\x05pickN\x12/\n\tpick_leaf\x18\x1a \x01(\x0b2\x10.verif.rich.LeafH\x00R\x08pickLeaf\x129\n\tpick_null\x18\x1b \x01(\x0e2\x1a.google.protobuf.NullValueH\x00R\x08pickNull\x12\x18\n\x05opt_n\x18\x1c \x01(\x05H\x01R\x04optN\x88\x01\x01\x12\x18\n\x05opt_s\x18\x1d \x01(\tH\x02R\x04optS\x88\x01\x01\x12&\n\x0fsnake_case_name\x18\x1e \x01(\tR\rsnakeCaseName\x12\x16\n\x05other\x18\x1f \x01(\tR\x07@custom\x12&\n\x03any\x18  \x01(\x0b2\x14.google.protobuf.AnyR\x03any\x12*\n\x02ts\x18! \x01(\x0b2\x1a.google.protobuf.TimestampR\x02ts\x12+\n\x03dur\x18" \x01(\x0b2\x19.google.protobuf.DurationR\x03dur\x12.\n\x04mask\x18# \x01(\x0b2\x1a.google.protobuf.FieldMaskR\x04mask\x12\'\n\x02st\x18$ \x01(\x0b2\x17.google.protobuf.StructR\x02st\x12(\n\x03val\x18% \x01(\x0b2\x16.google.protobuf.ValueR\x03val\x12,\n\x02ws\x18& \x01(\x0b2\x1c.google.protobuf.StringValueR\x02ws\x12+\n\x02wi\x18\' \x01(\x0b2\x1b.google.protobuf.Int64ValueR\x02wi\x12+\n\x02wb\x18( \x01(\x0b2\x1b.google.protobuf.BytesValueR\x02wb\x12,\n\x07colours\x18) \x03(\x0e2\x12.verif.rich.ColourR\x07colours\x12$\n\x04self\x18* \x01(\x0b2\x10.verif.rich.RichR\x04self\x12\x1c\n\x07doubles\x18+ \x03(\x01R\x07doublesB\x02\x10\x00\x12.\n\x04list\x18, \x01(\x0b2\x1a.google.protobuf.ListValueR\x04list\x12(\n\x04anys\x18- \x03(\x0b2\x14.google.protobuf.AnyR\x04anys\x1a9\n\x0bCountsEntry\x12\x10\n\x03key\x18\x01 \x01(\tR\x03key\x12\x14\n\x05value\x18\x02 \x01(\x03R\x05value:\x028\x01\x1aI\n\tByIdEntry\x12\x10\n\x03key\x18\x01 \x01(\x05R\x03key\x12&\n\x05value\x18\x02 \x01(\x0b2\x10.verif.rich.LeafR\x05value:\x028\x01\x1a9\n\x0bByFlagEntry\x12\x10\n\x03key\x18\x01 \x01(\x08R\x03key\x12\x14\n\x05value\x18\x02 \x01(\x0cR\x05value:\x028\x01B\x06\n\x04pickB\x08\n\x06_opt_nB\x08\n\x06_opt_s*Z\n\x06Colour\x12\x16\n\x12COLOUR_UNSPECIFIED\x10\x00\x12\x0e\n\nCOLOUR_RED\x10\x01\x12\x0f\n\x0bCOLOUR_BLUE\x10\x05\x12\x17\n\nCOLOUR_NEG\x10\xfd\xff\xff\xff\xff\xff\xff\xff\xff\x01b\x06proto3',
    [
        any_pb.desc(),
        duration_pb.desc(),
        field_mask_pb.desc(),
        struct_pb.desc(),
        timestamp_pb.desc(),
        wrappers_pb.desc(),
    ],
    {
        "Leaf": Leaf,
        "Rich": Rich,
        "Colour": Colour,
    },
)


def desc() -> DescFile:
    """Returns the descriptor for the file `rich.proto`."""
    return _DESC
