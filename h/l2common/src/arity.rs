#[allow(unused_imports)]
use pest3::{sequence::*, choice::*};
walk_seq!(Sequence2, field_0 T0 TR0 0, field_1 T1 TR1 1);
walk_cho!(Choice2, Choice0 T0 choice_0 0, Choice1 T1 choice_1 1);
walk_seq!(Sequence3, field_0 T0 TR0 0, field_1 T1 TR1 1, field_2 T2 TR2 2);
walk_cho!(Choice3, Choice0 T0 choice_0 0, Choice1 T1 choice_1 1, Choice2 T2 choice_2 2);
walk_seq!(Sequence4, field_0 T0 TR0 0, field_1 T1 TR1 1, field_2 T2 TR2 2, field_3 T3 TR3 3);
walk_cho!(Choice4, Choice0 T0 choice_0 0, Choice1 T1 choice_1 1, Choice2 T2 choice_2 2, Choice3 T3 choice_3 3);
walk_seq!(Sequence5, field_0 T0 TR0 0, field_1 T1 TR1 1, field_2 T2 TR2 2, field_3 T3 TR3 3, field_4 T4 TR4 4);
walk_cho!(Choice5, Choice0 T0 choice_0 0, Choice1 T1 choice_1 1, Choice2 T2 choice_2 2, Choice3 T3 choice_3 3, Choice4 T4 choice_4 4);
walk_seq!(Sequence6, field_0 T0 TR0 0, field_1 T1 TR1 1, field_2 T2 TR2 2, field_3 T3 TR3 3, field_4 T4 TR4 4, field_5 T5 TR5 5);
walk_cho!(Choice6, Choice0 T0 choice_0 0, Choice1 T1 choice_1 1, Choice2 T2 choice_2 2, Choice3 T3 choice_3 3, Choice4 T4 choice_4 4, Choice5 T5 choice_5 5);
walk_seq!(Sequence7, field_0 T0 TR0 0, field_1 T1 TR1 1, field_2 T2 TR2 2, field_3 T3 TR3 3, field_4 T4 TR4 4, field_5 T5 TR5 5, field_6 T6 TR6 6);
walk_cho!(Choice7, Choice0 T0 choice_0 0, Choice1 T1 choice_1 1, Choice2 T2 choice_2 2, Choice3 T3 choice_3 3, Choice4 T4 choice_4 4, Choice5 T5 choice_5 5, Choice6 T6 choice_6 6);
walk_seq!(Sequence8, field_0 T0 TR0 0, field_1 T1 TR1 1, field_2 T2 TR2 2, field_3 T3 TR3 3, field_4 T4 TR4 4, field_5 T5 TR5 5, field_6 T6 TR6 6, field_7 T7 TR7 7);
walk_cho!(Choice8, Choice0 T0 choice_0 0, Choice1 T1 choice_1 1, Choice2 T2 choice_2 2, Choice3 T3 choice_3 3, Choice4 T4 choice_4 4, Choice5 T5 choice_5 5, Choice6 T6 choice_6 6, Choice7 T7 choice_7 7);
walk_seq!(Sequence9, field_0 T0 TR0 0, field_1 T1 TR1 1, field_2 T2 TR2 2, field_3 T3 TR3 3, field_4 T4 TR4 4, field_5 T5 TR5 5, field_6 T6 TR6 6, field_7 T7 TR7 7, field_8 T8 TR8 8);
walk_cho!(Choice9, Choice0 T0 choice_0 0, Choice1 T1 choice_1 1, Choice2 T2 choice_2 2, Choice3 T3 choice_3 3, Choice4 T4 choice_4 4, Choice5 T5 choice_5 5, Choice6 T6 choice_6 6, Choice7 T7 choice_7 7, Choice8 T8 choice_8 8);
walk_seq!(Sequence10, field_0 T0 TR0 0, field_1 T1 TR1 1, field_2 T2 TR2 2, field_3 T3 TR3 3, field_4 T4 TR4 4, field_5 T5 TR5 5, field_6 T6 TR6 6, field_7 T7 TR7 7, field_8 T8 TR8 8, field_9 T9 TR9 9);
walk_cho!(Choice10, Choice0 T0 choice_0 0, Choice1 T1 choice_1 1, Choice2 T2 choice_2 2, Choice3 T3 choice_3 3, Choice4 T4 choice_4 4, Choice5 T5 choice_5 5, Choice6 T6 choice_6 6, Choice7 T7 choice_7 7, Choice8 T8 choice_8 8, Choice9 T9 choice_9 9);
walk_seq!(Sequence11, field_0 T0 TR0 0, field_1 T1 TR1 1, field_2 T2 TR2 2, field_3 T3 TR3 3, field_4 T4 TR4 4, field_5 T5 TR5 5, field_6 T6 TR6 6, field_7 T7 TR7 7, field_8 T8 TR8 8, field_9 T9 TR9 9, field_10 T10 TR10 10);
walk_cho!(Choice11, Choice0 T0 choice_0 0, Choice1 T1 choice_1 1, Choice2 T2 choice_2 2, Choice3 T3 choice_3 3, Choice4 T4 choice_4 4, Choice5 T5 choice_5 5, Choice6 T6 choice_6 6, Choice7 T7 choice_7 7, Choice8 T8 choice_8 8, Choice9 T9 choice_9 9, Choice10 T10 choice_10 10);
walk_seq!(Sequence12, field_0 T0 TR0 0, field_1 T1 TR1 1, field_2 T2 TR2 2, field_3 T3 TR3 3, field_4 T4 TR4 4, field_5 T5 TR5 5, field_6 T6 TR6 6, field_7 T7 TR7 7, field_8 T8 TR8 8, field_9 T9 TR9 9, field_10 T10 TR10 10, field_11 T11 TR11 11);
walk_cho!(Choice12, Choice0 T0 choice_0 0, Choice1 T1 choice_1 1, Choice2 T2 choice_2 2, Choice3 T3 choice_3 3, Choice4 T4 choice_4 4, Choice5 T5 choice_5 5, Choice6 T6 choice_6 6, Choice7 T7 choice_7 7, Choice8 T8 choice_8 8, Choice9 T9 choice_9 9, Choice10 T10 choice_10 10, Choice11 T11 choice_11 11);
walk_seq!(Sequence13, field_0 T0 TR0 0, field_1 T1 TR1 1, field_2 T2 TR2 2, field_3 T3 TR3 3, field_4 T4 TR4 4, field_5 T5 TR5 5, field_6 T6 TR6 6, field_7 T7 TR7 7, field_8 T8 TR8 8, field_9 T9 TR9 9, field_10 T10 TR10 10, field_11 T11 TR11 11, field_12 T12 TR12 12);
walk_cho!(Choice13, Choice0 T0 choice_0 0, Choice1 T1 choice_1 1, Choice2 T2 choice_2 2, Choice3 T3 choice_3 3, Choice4 T4 choice_4 4, Choice5 T5 choice_5 5, Choice6 T6 choice_6 6, Choice7 T7 choice_7 7, Choice8 T8 choice_8 8, Choice9 T9 choice_9 9, Choice10 T10 choice_10 10, Choice11 T11 choice_11 11, Choice12 T12 choice_12 12);
walk_seq!(Sequence14, field_0 T0 TR0 0, field_1 T1 TR1 1, field_2 T2 TR2 2, field_3 T3 TR3 3, field_4 T4 TR4 4, field_5 T5 TR5 5, field_6 T6 TR6 6, field_7 T7 TR7 7, field_8 T8 TR8 8, field_9 T9 TR9 9, field_10 T10 TR10 10, field_11 T11 TR11 11, field_12 T12 TR12 12, field_13 T13 TR13 13);
walk_cho!(Choice14, Choice0 T0 choice_0 0, Choice1 T1 choice_1 1, Choice2 T2 choice_2 2, Choice3 T3 choice_3 3, Choice4 T4 choice_4 4, Choice5 T5 choice_5 5, Choice6 T6 choice_6 6, Choice7 T7 choice_7 7, Choice8 T8 choice_8 8, Choice9 T9 choice_9 9, Choice10 T10 choice_10 10, Choice11 T11 choice_11 11, Choice12 T12 choice_12 12, Choice13 T13 choice_13 13);
walk_seq!(Sequence15, field_0 T0 TR0 0, field_1 T1 TR1 1, field_2 T2 TR2 2, field_3 T3 TR3 3, field_4 T4 TR4 4, field_5 T5 TR5 5, field_6 T6 TR6 6, field_7 T7 TR7 7, field_8 T8 TR8 8, field_9 T9 TR9 9, field_10 T10 TR10 10, field_11 T11 TR11 11, field_12 T12 TR12 12, field_13 T13 TR13 13, field_14 T14 TR14 14);
walk_cho!(Choice15, Choice0 T0 choice_0 0, Choice1 T1 choice_1 1, Choice2 T2 choice_2 2, Choice3 T3 choice_3 3, Choice4 T4 choice_4 4, Choice5 T5 choice_5 5, Choice6 T6 choice_6 6, Choice7 T7 choice_7 7, Choice8 T8 choice_8 8, Choice9 T9 choice_9 9, Choice10 T10 choice_10 10, Choice11 T11 choice_11 11, Choice12 T12 choice_12 12, Choice13 T13 choice_13 13, Choice14 T14 choice_14 14);
walk_seq!(Sequence16, field_0 T0 TR0 0, field_1 T1 TR1 1, field_2 T2 TR2 2, field_3 T3 TR3 3, field_4 T4 TR4 4, field_5 T5 TR5 5, field_6 T6 TR6 6, field_7 T7 TR7 7, field_8 T8 TR8 8, field_9 T9 TR9 9, field_10 T10 TR10 10, field_11 T11 TR11 11, field_12 T12 TR12 12, field_13 T13 TR13 13, field_14 T14 TR14 14, field_15 T15 TR15 15);
walk_cho!(Choice16, Choice0 T0 choice_0 0, Choice1 T1 choice_1 1, Choice2 T2 choice_2 2, Choice3 T3 choice_3 3, Choice4 T4 choice_4 4, Choice5 T5 choice_5 5, Choice6 T6 choice_6 6, Choice7 T7 choice_7 7, Choice8 T8 choice_8 8, Choice9 T9 choice_9 9, Choice10 T10 choice_10 10, Choice11 T11 choice_11 11, Choice12 T12 choice_12 12, Choice13 T13 choice_13 13, Choice14 T14 choice_14 14, Choice15 T15 choice_15 15);
